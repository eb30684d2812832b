"""C04: results depend only on the model, the unit and the seed"""
import math

from hypothesis import strategies as st

from harness import largemodel, models
from harness.core import Ctx
from harness.models import warm  # noqa
from harness.part import Part
from harness.peer import peer
from harness.refmodel import HistoryGen, World


def floats(a):
    import numpy as np
    return np.asarray(a, 'f8').tolist()


def discrete(m, case, threads=None, seed=None, clear=False):
    r, ls = m.run_discrete(random_seed=case['seed'] if seed is None else seed, n_draws=case['draws'], astype='index',
                           squeeze=False, n_threads=threads or case['threads'][0], clear_scope=clear,
                           scale_utilities=case['scale'])
    return [r.values.tolist(), floats(ls.values)]


def stochastic(m, case, threads=None):
    p, top, terms = m.run_stochastic(n_threads=threads or case['threads'][0], clear_scope=False,
                                     scale_utilities=case['scale'])
    return [floats(p.values), floats(top.values), floats(terms.values)]


def global_state():
    import numpy as np
    kind, keys, pos, has_gauss, gauss = np.random.get_state()
    return kind, keys.tolist(), pos, has_gauss, gauss


def check_equal_models(ctx, case, make, remote):
    """make() returns a new equal model"""
    import numpy as np
    from numpy.random import RandomState
    m = ctx.sut('building the model', make)
    a_threads, b_threads = case['threads']
    np.random.seed(case['seed'] % 1000)
    before = global_state()
    first = ctx.sut('discrete run', discrete, m, case)
    p_first = ctx.sut('stochastic run', stochastic, m, case)
    ctx.require(global_state() == before, "NumPy's global random state was changed by a run")
    np.random.seed(case['seed'] % 1000 + 1)

    def same(what, got):
        ctx.require(got[0] == first[0], lambda: f'{what}: choices {str(got[0])[:300]} differ from {str(first[0])[:300]}')
        ctx.require(got[1] == first[1], lambda: f'{what}: logsums {str(got[1])[:300]} differ from {str(first[1])[:300]}')

    same('the same model again, with another global random state', ctx.sut('discrete run', discrete, m, case))
    same(f'{b_threads} threads instead of {a_threads}', ctx.sut('discrete run', discrete, m, case, b_threads))
    m2 = ctx.sut('building the model', make)
    same(f'an equal model with {b_threads} threads instead of {a_threads}', ctx.sut('discrete run', discrete, m2, case, b_threads))
    same('a NumPy integer as seed', ctx.sut('discrete run', discrete, m2, case, None, np.int64(case['seed'])))
    p_other = ctx.sut('stochastic run', stochastic, m2, case, b_threads)
    for got, exp, name in zip(p_other, p_first, ('probabilities', 'logsums', 'logsum terms')):
        ctx.require(np.allclose(got, exp, rtol=1e-11, atol=1e-300),
                    lambda: f'{name} depend on the number of threads ({a_threads} or {b_threads}): {exp} and {got}')

    # Random state objects
    s1, s2 = RandomState(case['seed'] % 2 ** 31), RandomState(case['seed'] % 2 ** 31)
    before = global_state()
    r1 = [ctx.sut('discrete run with a RandomState', discrete, m, case, a_threads, s1) for _ in range(2)]
    r2 = [ctx.sut('discrete run with a RandomState', discrete, m2, case, b_threads, s2) for _ in range(2)]
    ctx.require(r1 == r2, lambda: f'random states in the same state give {str(r1)[:300]} and {str(r2)[:300]}')
    ctx.sut('discrete run without a seed', m.run_discrete, n_draws=case['draws'], clear_scope=False,
            n_threads=a_threads, scale_utilities=case['scale'])
    ctx.require(global_state() == before, "NumPy's global random state was changed by a run")

    if remote is not None:
        reply = peer().ask('checks.c04', remote, case)
        if 'error' in reply:
            ctx.fail(f'in another process: {reply["error"]}\n{reply["trace"][-600:]}')
        same('another process with another hash seed', reply['value'])
    same('the original model, at last', ctx.sut('discrete run', discrete, m, case))
    return m, first, p_first

# region Small models with all kinds of expressions


@st.composite
def expression_cases(draw, tier):
    g = HistoryGen(draw, max_nodes=6)
    g.op_tree()
    g.op_units()
    for name in draw(st.permutations(sorted(g.symbols))):
        g.op_declare(0, name)
    for _ in range(draw(st.integers(1, 4))):
        g.op_expr(0, draw(st.sampled_from([None, None, 'g', 'h'])))
    for name in draw(st.permutations(sorted(g.symbols))):
        g.op_assign(0, name)
    case = g.case()
    case['ok'] = g.in_domain(0) and not g.fails(0)
    case.update(draw_settings(draw))
    return case


def draw_settings(draw):
    return {'threads': [draw(st.integers(1, 4)), draw(st.integers(1, 4))], 'seed': draw(st.integers(0, 2 ** 31 - 1)),
            'draws': draw(st.sampled_from([1, 1, 2, 5])), 'scale': draw(st.sampled_from([True, True, False]))}


def build_expression_model(case):
    w = World(case, Ctx())
    w.go()
    return w.real[0]


def remote_expressions(case):
    return discrete(build_expression_model(case), case, case['threads'][1])


def run_expressions(case, ctx):
    if not case['ok']:
        ctx.label('excluded (no probabilities, or too large)')
        return
    check_equal_models(ctx, case, lambda: build_expression_model(case), 'remote_expressions')
    ctx.nontrivial = True
    ctx.label_if(len({tuple(p) for _, op, *a in case['ops'] if op == 'add' for p in [a[0]]}) > 3, 'more than three choices')
    ctx.label_if(case['threads'][0] != case['threads'][1], 'different numbers of threads')
    ctx.label_if(case['draws'] > 1, 'several draws')

# endregion
# region Many units


@st.composite
def peer_cases(draw, tier):
    tree = draw(models.trees(max_nodes=7))
    k = draw(st.integers(1, 5))
    rows = [[draw(st.integers(-24, 24)) / draw(st.sampled_from([8, 8, 7])) if draw(st.integers(0, 7)) else -math.inf
             for _ in tree] for _ in range(k)]
    path = models.leaves(tree)[0]
    paths = [p for p, _ in tree]
    for row in rows:
        for i in range(1, len(path) + 1):
            if row[paths.index(path[:i])] == -math.inf:
                row[paths.index(path[:i])] = 0.25
    precision = draw(st.sampled_from([8, 8, 4]))
    if draw(st.integers(0, 3)) == 0:
        # Units on far apart levels, which have the same effect on all of their choices
        far = 60 if precision == 4 else 600
        for row in rows:
            level = draw(st.sampled_from([0, 0, far, -far, far // 2, -far // 2]))
            for j, (p, _) in enumerate(tree):
                row[j] += level if len(p) == 1 else 0
    case = {'tree': tree, 'rows': rows, 'n': draw(st.one_of(st.integers(1, 12), st.integers(1, 1500))),
            'how': draw(st.sampled_from(['matrix', 'partial', 'table'])), 'precision': precision,
            'step': draw(st.integers(1, 50)), 'keep': draw(st.lists(st.booleans(), min_size=1, max_size=9)),
            'reverse': draw(st.booleans())}
    case.update(draw_settings(draw))
    return case


def build_units(case, order=None):
    n, rows = case['n'], case['rows']
    every = [[u + (i % 11) / 16 if j % 2 else u for j, u in enumerate(rows[(i * case['step']) % len(rows)])] for i in range(n)]
    order = range(n) if order is None else order
    units = {'kind': 'int', 'labels': [3 * i + 1 for i in order]}
    return models.build_model(case['tree'], units, [every[i] for i in order], case['precision'], case['how'])


def remote_units(case):
    return discrete(build_units(case), case, case['threads'][1])


def run_peers(case, ctx):
    import numpy as np
    n = case['n']
    m, first, p_first = check_equal_models(ctx, case, lambda: build_units(case), 'remote_units' if n < 200 else None)
    # Subsets and other orders of the units
    keep = [i for i in range(n) if case['keep'][i % len(case['keep'])]] or [0]
    order = sorted(keep, key=lambda i: (i * 7919 + case['seed']) % 104729)
    if case['reverse']:
        order = keep[::-1]
    m3 = ctx.sut('building a model with other units', build_units, case, order)
    got = ctx.sut('stochastic run', stochastic, m3, case)
    for a, b, name in zip(got, p_first, ('probabilities', 'logsums', 'logsum terms')):
        a, b = np.array(a), np.array(b)[order]
        ctx.require(np.allclose(a, b, rtol=1e-11, atol=1e-300),
                    lambda: f'{name} depend on which other units there are, or their order: {a.tolist()} instead of {b.tolist()}')
    _, ls = discrete(m3, case)
    ctx.require(np.allclose(ls, np.array(first[1])[order], rtol=1e-11), 'logsums of a discrete run depend on the other units')
    ctx.nontrivial = n > 1
    ctx.label_if(n > 100, 'many units')
    ctx.label_if(any(29 < abs(u) < math.inf for r in case['rows'] for u in r), 'units on far apart levels')
    ctx.label_if(len(order) < n, 'subset of the units')
    ctx.label_if(case['threads'][0] != case['threads'][1], 'different numbers of threads')
    ctx.label_if(case['draws'] > 1, 'several draws')

# endregion


PARTS = [
    Part('expressions', expression_cases, run_expressions, 500, 10000),
    Part('units', peer_cases, run_peers, 700, 14000),
    Part('large', largemodel.large_models, largemodel.run_peers, 40, 1000),
]
