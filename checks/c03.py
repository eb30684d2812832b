"""C03: sampled choices are draws from the computed probabilities"""
import math
import random

from hypothesis import strategies as st

from harness import models
from harness.models import warm as warm_models
from harness.part import Part

TINY = 2.2250738585072014e-308
LIMIT = 30.0  # The chance of a false alarm of a single comparison is less than 2 exp(-30), i.e. 2e-13


def internal(name):
    """The search functions are internal, so another tree may not have them"""
    import cheval.core as core
    return getattr(core, name, None)


def call(ctx, name, *args):
    """Returns None if there is no such function, or it is called in another way"""
    fn = internal(name)
    if fn is None:
        return None
    try:
        return fn(*args)
    except TypeError:
        ctx.label(f'{name} not usable')
        return None
    except Exception as e:
        ctx.fail(f'{name}{args}: unexpected {type(e).__name__}: {e}')


def warm():
    warm_models()

# region Search functions, given the draw


@st.composite
def vectors(draw):
    """Probabilities, on a grid for which all sums are exact, or not"""
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(13, 40), st.sampled_from([130, 257, 300])))
    zero = draw(st.sampled_from([0, 0, 1, 2]))
    if n > 40:
        rng = random.Random(draw(st.integers(0, 999)))
        w = [0 if zero and rng.randint(0, 3) < zero else rng.randint(1, 9) for _ in range(n)]
    else:
        w = [0 if zero and draw(st.integers(0, 3)) < zero else draw(st.integers(1, 9)) for _ in range(n)]
    if not any(w):
        w[draw(st.integers(0, n - 1))] = 1
    if draw(st.booleans()):
        # Put the remainder on one of the positive cells, for an exact sum of one on a grid of 1/128
        total = 128 if n <= 12 else 4096
        s = sum(w)
        k = draw(st.sampled_from([i for i in range(n) if w[i]]))
        w[k] += total - s
        return [x / total for x in w]
    s = sum(w)
    return [x / s for x in w]


@st.composite
def search_cases(draw, tier):
    p = draw(vectors())
    n = len(p)
    kind = draw(st.integers(0, 5))
    cum, acc = [], 0.0
    for x in p:
        acc += x
        cum.append(acc)
    if kind == 0:
        r = draw(st.sampled_from([1.0, 1 - 2 ** -53, TINY, 5e-324, 1e-300, 0.5]))
    elif kind <= 2:
        r = draw(st.sampled_from(cum)) or TINY
        step = draw(st.sampled_from([-1, 0, 0, 1]))
        r = math.nextafter(r, 2 if step > 0 else -1) if step else r
        r = min(max(r, TINY), 1.0)
    else:
        r = draw(st.integers(1, 1 << 20)) / (1 << 20)
    return {'p': p, 'r': r, 'short': draw(st.booleans()) and n > 1}


def run_search(case, ctx):
    import numpy as np
    p, r = case['p'], case['r']
    if case['short']:
        p = [x * (1 - 2 ** -50) for x in p]  # Falls just short of 1, as with rounding
    cum, acc = [], 0.0
    for x in p:
        acc += x
        cum.append(acc)
    expected = None
    for i, c in enumerate(cum):
        if p[i] > 0 and r <= c:
            expected = i
            break
    if expected is None:
        expected = max(i for i in range(len(p)) if p[i] > 0)
    weights = [x * 4 for x in p]
    once = call(ctx, 'sample_once', np.array(p), r)
    binary = call(ctx, 'logarithmic_search', r, np.array(cum))
    simple = None if case['short'] else call(ctx, 'simple_sample', np.array(weights), r)
    ctx.require(once in (None, expected), lambda: f'sample_once({p}, {r!r}) is {once}, expected {expected}')
    ctx.require(binary in (None, expected), lambda: f'logarithmic_search({r!r}, {cum}) is {binary}, expected {expected}')
    if simple is not None:
        near = any(abs(r - c) < 1e-12 for c in cum)
        ctx.require(p[simple] > 0 and (near or simple == expected),
                    lambda: f'simple_sample({weights}, {r!r}) is {simple}, expected {expected}')
    done = any(x is not None for x in (once, binary, simple))
    ctx.nontrivial = done and len(p) > 1
    ctx.label_if(0.0 in p, 'zero probabilities')
    ctx.label_if(r in cum, 'draw at a boundary')
    ctx.label_if(r > cum[-1], 'draw beyond the sum')
    ctx.label_if(p[-1] == 0 and r >= 1 - 1e-9, 'draw of 1 with a zero at the end')

# endregion
# region Public runs


@st.composite
def model_cases(draw, tier, nested):
    tree = draw(models.trees(nested=nested, max_nodes=8))
    row = [draw(st.sampled_from([-math.inf, -999.0, None, None, None, None, None, None])) for _ in tree]
    row = [draw(st.integers(-12, 12)) / 8 if u is None else u for u in row]
    scale = draw(st.sampled_from([True, True, False]))
    # Keep a feasible alternative
    path = draw(st.sampled_from(models.leaves(tree)))
    paths = [p for p, _ in tree]
    for k in range(1, len(path) + 1):
        if row[paths.index(path[:k])] < -100:
            row[paths.index(path[:k])] = 0.5
    mode = draw(st.sampled_from(['units', 'draws', 'mixed', 'seeds', 'sequences']))
    big = 6 if tier == 'thorough' else 1
    n, d = {'units': (4000 * big, 1), 'draws': (draw(st.sampled_from([1, 2, 3])), 3000 * big),
            'mixed': (draw(st.sampled_from([200, 700])), draw(st.sampled_from([2, 3, 10]))), 'seeds': (2, 3),
            'sequences': (draw(st.sampled_from([200, 500])), draw(st.sampled_from([300, 800])))}[mode]
    return {'tree': tree, 'row': row, 'scale': scale, 'units': n, 'draws': d, 'mode': mode,
            'seed': draw(st.one_of(st.integers(0, 20000), st.integers(0, 2 ** 31 - 1))), 'threads': draw(st.integers(1, 4)),
            'precision': draw(st.sampled_from([8, 8, 4]))}


def unlikely(k, n, p):
    """-log of (a bound of) the chance to be as far from the expectation"""
    if n == 0:
        return 0.0
    if p <= 0:
        return math.inf if k else 0.0
    if p >= 1:
        return math.inf if k < n else 0.0
    f = k / n
    kl = 0.0
    if f > 0:
        kl += f * math.log(f / p)
    if f < 1:
        kl += (1 - f) * math.log((1 - f) / (1 - p))
    return n * kl


def run_models(case, ctx):
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel
    tree, row = case['tree'], case['row']
    n, d = case['units'], case['draws']
    m = ChoiceModel(precision=case['precision'])
    ctx.sut('building the tree', models.build_tree, m, tree)
    m.decision_units = pd.RangeIndex(n)
    values = np.tile(np.array(row, dtype='f8'), (n, 1))
    m.declare_matrix('u')
    m['u'].assign(pd.DataFrame(values, index=m.decision_units, columns=m.choices))
    m.expressions.append('u')

    def discrete(seed):
        r, _ = m.run_discrete(random_seed=seed, n_draws=d, astype='index', squeeze=False, n_threads=case['threads'],
                              clear_scope=False, scale_utilities=case['scale'])
        return np.asarray(r.values)

    def stochastic():
        p, _, _ = m.run_stochastic(n_threads=case['threads'], clear_scope=False, scale_utilities=case['scale'])
        return np.asarray(p.values, 'f8')[0]
    p_leaves = ctx.sut('run_stochastic', stochastic)
    paths = [x for x, _ in tree]
    p = np.zeros(len(tree))
    for j, x in enumerate(models.leaves(tree)):
        p[paths.index(x)] = p_leaves[j]

    if case['mode'] == 'seeds':
        seeds = [case['seed'] % 100000 + i for i in range(400)]
        runs = [ctx.sut('run_discrete', discrete, s) for s in seeds]
        c = np.concatenate(runs)
    else:
        c = ctx.sut('run_discrete', discrete, case['seed'])
        ctx.require(c.shape == (n, d), lambda: f'shape of the choices is {c.shape}')
    where = f'{n} units, {d} draws, seed {case["seed"]}, probabilities {p.tolist()} (tree {tree}, utilities {row})'
    ctx.require(bool(np.all((c >= 0) & (c < len(tree)))), lambda: f'{where}: a choice is not among the choices')
    ctx.require(bool(np.all(p[c] > 0)), lambda: f'{where}: a choice of probability 0 was made: '
                                               f'{[paths[j] for j in set(c[p[c] == 0].tolist())]}')
    total = c.size
    counts = np.bincount(c.ravel(), minlength=len(tree))
    for j in range(len(tree)):
        ctx.require(unlikely(counts[j], total, p[j]) < LIMIT,
                    lambda: f'{where}: {paths[j]} was chosen {counts[j]} times of {total}, with probability {p[j]}')
    # Each column, and each row if long enough
    if d > 1 and case['mode'] != 'seeds':
        for k in {0, 1, d - 1}:
            cc = np.bincount(c[:, k], minlength=len(tree))
            for j in range(len(tree)):
                ctx.require(unlikely(cc[j], n, p[j]) < LIMIT, lambda: f'{where}: {paths[j]} was chosen {cc[j]} times in draw {k}')
        if d > 100:
            for i in range(n):
                cc = np.bincount(c[i], minlength=len(tree))
                for j in range(len(tree)):
                    ctx.require(unlikely(cc[j], d, p[j]) < LIMIT,
                                lambda: f'{where}: {paths[j]} was chosen {cc[j]} times by unit {i}')

    # Independence: coincidences of disjoint pairs
    same = float(np.sum(p ** 2))
    checks = {'neighbouring units': (c[0:n - n % 2:2, 0], c[1:n:2, 0])}
    if d > 1:
        checks['neighbouring draws'] = (c[:, 0:d - d % 2:2].ravel(), c[:, 1:d:2].ravel())
        checks['neighbouring units and draws'] = (c[0:n - n % 2:2, 0], c[1:n:2, 1])
        checks['first and last draw'] = (c[:, 0], c[:, d - 1])
        checks['all draws of neighbouring units'] = (c[0:n - n % 2:2].ravel(), c[1:n:2].ravel())
    h = n // 2
    checks['halves of the units'] = (c[:h, 0], c[h:2 * h, 0])
    dh = d // 2
    if dh:
        checks['halves of the draws'] = (c[:, :dh].ravel(), c[:, dh:2 * dh].ravel())
    if case['mode'] == 'seeds':
        checks = {'neighbouring units of each seed': (c[0::2].ravel(), c[1::2].ravel()),
                  'draws of each seed': (c[:, 0], c[:, 1]),
                  'last draw and first of the other unit': (c[0::2, 2], c[1::2, 0])}
    power = 0.0
    for name, (a, b) in checks.items():
        eq = int(np.sum(a == b))
        ctx.require(unlikely(eq, len(a), same) < LIMIT,
                    lambda: f'{where}: {name} made the same choice {eq} times of {len(a)}, expected {same * len(a):.1f}')
        power = max(power, unlikely(len(a), len(a), same))

    if case['mode'] == 'sequences' and same < 1 and 2 * math.log(n) + d * math.log(same) < -LIMIT:
        # No two units can make all the same choices. (Once is let pass, the units' random seeds have 31 bits only.)
        first, twins = {}, []
        for i in range(n):
            j = first.setdefault(c[i].tobytes(), i)
            if j != i:
                twins.append((j, i))
        ctx.require(len(twins) < 2, lambda: f'{where}: {len(twins)} pairs of units made all the same choices: {twins[:10]}')
        ctx.label('able to notice units with the same draws')

    ctx.nontrivial = int(np.sum(p > 0)) > 1
    ctx.label('mode ' + case['mode'])
    ctx.label_if(power > LIMIT, 'able to notice identical draws')
    ctx.label_if(bool(np.any(p_leaves == 0)), 'infeasible alternatives')
    ctx.label_if(case['threads'] > 1, 'several threads')
    ctx.label_if(case['precision'] == 4, 'precision 4')


def aliases(x, p):
    """The largest correlation of a sequence with itself at any (circular) lag, in standard deviations, and that lag"""
    import numpy as np
    n = len(x)
    spectrum = np.fft.rfft(x - p)
    r = np.fft.irfft(spectrum * spectrum.conj(), n)[1:n // 2 + 1] / (p * (1 - p) * math.sqrt(n))
    k = int(np.argmax(np.abs(r)))
    return float(r[k]), k + 1


def dispersion(counts, n, p):
    """How far the variance of counts, each of n, is from a binomial one, in standard deviations"""
    import numpy as np
    z = (np.asarray(counts, 'f8') - n * p) ** 2 / (n * p * (1 - p))
    # The fourth moment of a binomial distribution
    v = p * (1 - p)
    sd = math.sqrt(max(2 + (1 - 6 * v) / (n * v), 0.2) / len(z))
    return float(z.mean() - 1) / sd


@st.composite
def sequence_cases(draw, tier):
    k = draw(st.sampled_from([2, 2, 2, 3]))
    far = 4 if tier == 'thorough' else 1
    mode = draw(st.sampled_from(['long', 'long', 'draws', 'runs', 'rows', 'state']))
    n, d, runs = {'long': (draw(st.sampled_from([5000, 20000, 40000, 70000, 140000])) * far, 1, 1),
                  'draws': (draw(st.sampled_from([1, 30, 1500, 30000])), 0, 1), 'runs': (draw(st.sampled_from([64, 300])), 1, 150),
                  'rows': (150, draw(st.sampled_from([100, 128])), 6), 'state': (100, draw(st.sampled_from([1, 2])), 8)}[mode]
    d = d or 60000 * far // n
    return {'mode': mode, 'units': n, 'draws': d, 'runs': runs, 'weights': [draw(st.integers(1, 3)) for _ in range(k)],
            'nested': draw(st.booleans()), 'seed': draw(st.one_of(st.integers(0, 999), st.integers(0, 2 ** 31 - 10 ** 6))),
            'step': draw(st.sampled_from([1, 1, 2, 7, 100, 128, 1000, 4096])), 'threads': draw(st.integers(1, 4))}


def run_sequences(case, ctx):
    """Long sequences of choices don't repeat themselves, and vary as much as independent choices do"""
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel
    w, n, d, runs, mode = case['weights'], case['units'], case['draws'], case['runs'], case['mode']
    if case['nested']:
        tree = [[['N'], 1.0], [['N', 'a'], 1.0], [['N', 'b'], 1.0]] + [[[f'c{i}'], 1.0] for i in range(len(w) - 1)]
        row = [0.0, math.log(w[0] / 2), math.log(w[0] / 2)] + [math.log(x) for x in w[1:]]
        first = [1, 2]
    else:
        tree = [[[f'c{i}'], 1.0] for i in range(len(w))]
        row = [math.log(x) for x in w]
        first = [0]
    p = w[0] / sum(w)
    m = ChoiceModel()
    ctx.sut('building the tree', models.build_tree, m, tree)
    m.decision_units = pd.RangeIndex(n)
    m.declare_vector('u', 1)
    m['u'].assign(pd.Series(row, index=m.choices))
    m.expressions.append('u')

    def discrete(seed):
        r, _ = m.run_discrete(random_seed=seed, n_draws=d, astype='index', squeeze=False, n_threads=case['threads'],
                              clear_scope=False)
        return np.isin(np.asarray(r.values), first).astype('f8')
    where = f'{n} units, {d} draws, {runs} runs from seed {case["seed"]} by {case["step"]}, probability {p}'
    if mode == 'state':
        states = [np.random.RandomState(case['seed']), None]
        for state in states:
            got = [ctx.sut('run_discrete', discrete, state) for _ in range(runs)]
            # (Few of them are the same by chance)
            different = len({g.tobytes() for g in got})
            ctx.require(different > 1, lambda: f'{where}: {runs} runs without a seed, or with the same RandomState object, all '
                                               f'gave the same choices')
        ctx.nontrivial = True
        ctx.label('mode state')
        return
    seeds = [case['seed'] + i * case['step'] for i in range(runs)]
    got = [ctx.sut('run_discrete', discrete, s) for s in seeds]
    bound = 10.0

    def look(what, x):
        r, lag = aliases(x, p)
        ctx.require(abs(r) < bound, lambda: f'{where}: {what} are correlated, by {r / math.sqrt(len(x)):.3f} at a distance of {lag}')

    def spread(what, counts, of):
        z = dispersion(counts, of, p)
        ctx.require(abs(z) < bound, lambda: f'{where}: {what} vary by {z:.1f} standard deviations more than those of independent '
                                            f'choices: {np.asarray(counts).tolist()[:40]}')
    if n > 1:
        look('choices of units', got[0][:, 0])
    every = np.concatenate([g.ravel() for g in got])
    look('choices in the order of units and draws', every)
    look('choices in the order of draws and units', np.concatenate([g.T.ravel() for g in got]))
    for size in (50, 64, 1000):
        if len(every) >= 100 * size:
            spread(f'counts of {size} consecutive choices', every[:len(every) // size * size].reshape(-1, size).sum(1), size)
    if d >= 50 and n * runs >= 100:
        spread('counts of the units', np.concatenate([g.sum(1) for g in got]), d)
    if n >= 50 and d * runs >= 100:
        spread('counts of the draws', np.concatenate([g.sum(0) for g in got]), n)
    if mode in ('runs', 'rows'):
        rows = [g.ravel() for g in got] if mode == 'runs' else [x for g in got for x in g]
        same = p ** 2 + (1 - p) ** 2
        if 2 * math.log(len(rows)) + len(rows[0]) * math.log(same) < -LIMIT:
            seen, twins = {}, []
            for i, x in enumerate(rows):
                j = seen.setdefault(x.tobytes(), i)
                if j != i:
                    twins.append((j, i))
            # (Once is let pass, the units' random seeds have 31 bits only.)
            ctx.require(len(twins) < 2, lambda: f'{where}: {len(twins)} pairs of runs (or units) made all the same choices: {twins[:10]}')
            ctx.label('able to notice the same draws with different seeds')
    ctx.nontrivial = True
    ctx.label('mode ' + mode)
    ctx.label_if(len(every) >= 65536, 'more than 65536 choices')
    ctx.label_if(case['nested'], 'nested')


@st.composite
def coherence_cases(draw, tier):
    n_alt = draw(st.integers(2, 8))
    w = [draw(st.integers(0, 9)) for _ in range(n_alt)]
    if not any(w):
        w[0] = 1
    return {'w': w, 'units': draw(st.integers(1, 60)), 'draws': draw(st.sampled_from([1, 1, 4])),
            'seed': draw(st.integers(0, 2 ** 31 - 1)), 'cut': draw(st.integers(0, n_alt - 2)),
            'threads': draw(st.integers(1, 4)), 'nested': draw(st.booleans())}


def run_coherence(case, ctx):
    """The same draws must give the same alternatives whether or not the alternatives after (and before) a cut are told
    apart, in a multinomial model or a nested model with the same probabilities"""
    import numpy as np
    w, cut, n = case['w'], case['cut'], case['units']

    def go(weights, nested=False):
        tree = [[[f'a{i}'], 1.0] for i in range(len(weights))]
        utils = [math.log(x) if x > 0 else -math.inf for x in weights]
        if nested:
            # A nest around all of them, which has a scale of 1, so that its probabilities are the same
            tree = [[['top'], 1.0]] + [[['top', f'a{i}'], 1.0] for i in range(len(weights))] + [[['none'], 1.0]]
            utils = [0.0] + utils + [-math.inf]
        m = models.build_model(tree, {'kind': 'range', 'labels': list(range(n))}, [utils] * n, 8, 'partial')
        r, _ = m.run_discrete(random_seed=case['seed'], n_draws=case['draws'], astype='index', squeeze=False,
                              n_threads=case['threads'])
        return np.asarray(r.values) - (1 if nested else 0)
    full = ctx.sut('discrete run', go, w, case['nested'])
    low, high = sum(w[:cut + 1]), sum(w[cut + 1:])
    two = ctx.sut('discrete run with two alternatives', go, [low, high])
    ctx.require(bool(np.all((full <= cut) == (two == 0))),
                lambda: f'weights {w}, cut after {cut}: choices {full.tolist()} do not agree with those of two '
                        f'alternatives with the same cumulative probability, {two.tolist()}')
    ctx.nontrivial = low > 0 and high > 0
    ctx.label_if(0 in w, 'zero probabilities')
    ctx.label_if(case['nested'], 'nested')




PARTS = [
    Part('search', lambda tier: search_cases(tier), run_search, 4000, 80000),
    Part('coherence', lambda tier: coherence_cases(tier), run_coherence, 600, 10000),
    Part('multinomial', lambda tier: model_cases(tier, False), run_models, 400, 4000),
    Part('nested', lambda tier: model_cases(tier, True), run_models, 400, 4000),
    Part('sequences', sequence_cases, run_sequences, 160, 1600),
]
