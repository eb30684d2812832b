"""Generators of choice trees and decision units, an independent logit oracle, and builders of real models."""
import math

from hypothesis import strategies as st

NAMES = ['A', 'B', 'C', 'D', 'car', 'transit', 'x1', 'x_2', 'Z', 'a', 'b', 'walk', 'AA', 'k']
ODD_NAMES = ['walk access', '9', 'é', 'c-d', 'True']
SCALES = [1.0, 0.5, 0.25, 0.75, 0.3, 0.9, 0.1]


# region Trees. A tree is a list of [path, logsum scale] in order of insertion, where paths are lists of names

@st.composite
def trees(draw, max_nodes=9, max_depth=4, nested=None, odd_names=False, min_top=2):
    names = NAMES + (ODD_NAMES if odd_names else [])
    if nested is None:
        nested = draw(st.booleans())
    if not nested:
        n = draw(st.integers(min_top, max_nodes))
        picks = draw(st.lists(st.sampled_from(names), min_size=n, max_size=n, unique=True))
        return [[[p], draw(st.sampled_from(SCALES)) if draw(st.booleans()) else 1.0] for p in picks]

    n = draw(st.integers(3, max_nodes))
    # Now and then nests within nests within nests
    chain = max_depth >= 4 and draw(st.integers(0, 4)) == 4
    if chain:
        max_depth = max(max_depth, 8)
        n = max(n, draw(st.integers(5, 9)))
    nodes = []

    def free_name(parent):
        used = {p[-1] for p, _ in nodes if p[:-1] == parent}
        options = [x for x in names if x not in used]
        return draw(st.sampled_from(options))

    for i in range(n):
        parents = [[]] + [p for p, _ in nodes if len(p) < max_depth]
        # Prefer nesting, and recent nodes, to get deep trees
        k = draw(st.integers(0, len(parents) - 1)) if i > 0 else 0
        parent = parents[k]
        if chain and draw(st.integers(0, 7)) < 7:
            parent = parents[-1]
        nodes.append([parent + [free_name(parent)], draw(st.sampled_from(SCALES))])
    while sum(1 for p, _ in nodes if len(p) == 1) < 2:  # A model needs at least two choices at the top
        nodes.insert(draw(st.integers(0, len(nodes))), [[free_name([])], draw(st.sampled_from(SCALES))])
    if all(len(p) == 1 for p, _ in nodes):
        nodes.append([nodes[0][0] + ['x1'], 0.5])
    # No nest can have exactly one child. Insert the missing siblings at some later point.
    while True:
        lonely = [p for p, _ in nodes if sum(1 for q, _ in nodes if q[:-1] == p) == 1]
        if not lonely:
            return nodes
        at = draw(st.integers(0, 3))
        parent = lonely[0]
        first = max(i for i, (p, _) in enumerate(nodes) if p == parent)
        nodes.insert(min(first + 1 + at, len(nodes)), [parent + [free_name(parent)], draw(st.sampled_from(SCALES))])


@st.composite
def wide_specs(draw, most=320):
    """Trees of many choices, to be expanded by wide_tree()"""
    n_top = draw(st.sampled_from([2, 5, 40, 130, 260, 300]))
    nests = []
    if draw(st.booleans()):
        left = most - n_top
        for _ in range(draw(st.integers(1, 3))):
            k = draw(st.sampled_from([2, 3, 17, 130, 260]))
            if k <= left and len(nests) < n_top:
                nests.append([draw(st.integers(0, n_top - 1)), k])
                left -= k
    nests = [[i, k] for i, k in {i: k for i, k in nests}.items()]
    return {'top': n_top, 'nests': nests, 'deeper': draw(st.booleans()), 'late': draw(st.booleans())}


def wide_tree(spec):
    tree = []
    nests = dict(map(tuple, spec['nests']))
    later = []
    for i in range(spec['top']):
        tree.append([[f'w{i}'], SCALES[i % 6] if i in nests else 1.0])
        if i in nests:
            kids = [[[f'w{i}', f'k{j}'], 1.0] for j in range(nests[i])]
            if spec['deeper']:
                last = kids[-1]
                last[1] = 0.5
                kids += [[last[0] + ['x'], 1.0], [last[0] + ['y'], 1.0], [last[0] + ['z'], 0.5]]
            if spec['late']:
                later += kids
            else:
                tree += kids
    return tree + later


def depth(tree):
    return max(len(p) for p, _ in tree)


def children(tree, path):
    return [p for p, _ in tree if p[:-1] == path]


def leaves(tree):
    return [p for p, _ in tree if not children(tree, p)]


def label(path, max_depth):
    return path[0] if max_depth == 1 else tuple(path + ['.'] * (max_depth - len(path)))


def labels(tree):
    d = depth(tree)
    return [label(p, d) for p, _ in tree]

# endregion
# region Decision units


@st.composite
def unit_labels(draw, min_size=1, max_size=6, kinds=('range', 'int', 'str', 'multi')):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(min_size, max_size))
    if kind == 'range':
        return {'kind': kind, 'labels': list(range(n))}
    if kind == 'int':
        return {'kind': kind, 'labels': draw(st.lists(st.integers(-5, 60), min_size=n, max_size=n, unique=True))}
    if kind == 'str':
        pool = [f'u{i}' for i in range(max(n, 4))] + ['é', 'x y', '']
        return {'kind': kind, 'labels': draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n, unique=True))}
    pairs = draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4)), min_size=n, max_size=n, unique=True))
    return {'kind': kind, 'labels': [list(x) for x in pairs]}


def unit_list(units):
    return [tuple(x) if isinstance(x, list) else x for x in units['labels']]


def make_units(units):
    import pandas as pd
    if units['kind'] == 'range':
        return pd.RangeIndex(len(units['labels']))
    if units['kind'] == 'multi':
        return pd.MultiIndex.from_tuples([tuple(x) for x in units['labels']], names=['o', 'd'])
    return pd.Index(units['labels'])

# endregion
# region Oracle


def _exp(x):
    if x == -math.inf:
        return 0.0
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


def logit(tree, utilities, scale_utilities=True):
    """Probabilities, top-level logsum and logsum terms of one decision unit.

    Args:
        utilities: One value per node of the tree, in the same order.
    Returns: (dict of path -> probability for the elemental alternatives, logsum, list of terms, magnitude) where the
        magnitude is the greatest absolute exponent that had to be exponentiated, disregarding infinite ones.
    """
    index = {tuple(p): i for i, (p, _) in enumerate(tree)}
    kids = {tuple(p): [] for p, _ in tree}
    top = []
    for p, _ in tree:
        (top if len(p) == 1 else kids[tuple(p[:-1])]).append(tuple(p))
    scale = {tuple(p): s for p, s in tree}
    terms = [0.0] * len(tree)
    magnitude = [0.0]

    def term(path, parent_scale):
        u = float(utilities[index[path]])
        if kids[path]:
            total = math.fsum(term(k, scale[path] if scale_utilities else 1.0) for k in kids[path])
            u = u + scale[path] * math.log(total) if total > 0 else -math.inf
        x = u / parent_scale
        if not math.isinf(x):
            magnitude[0] = max(magnitude[0], abs(x))
        terms[index[path]] = _exp(x)
        return terms[index[path]]

    logsum = math.fsum(term(k, 1.0) for k in top)
    p = {}

    def share(paths, mass):
        total = math.fsum(terms[index[k]] for k in paths)
        for k in paths:
            m = mass * terms[index[k]] / total if total > 0 else 0.0
            if kids[k]:
                share(kids[k], m)
            else:
                p[k] = m

    share(top, 1.0)
    return p, logsum, terms, magnitude[0]


def possible(tree, utilities):
    """Which nodes can be chosen at all: those with a finite utility, and at least one possible child if they have any,
    under possible parents"""
    index = {tuple(p): i for i, (p, _) in enumerate(tree)}
    below = {}

    def visit(path):
        kids = children(tree, list(path))
        ok = float(utilities[index[path]]) != -math.inf
        if kids:
            ok = any([visit(tuple(k)) for k in kids]) and ok
        below[path] = ok
        return ok

    for p, _ in tree:
        if len(p) == 1:
            visit(tuple(p))
    return {p: all(below[p[:i]] for i in range(1, len(p) + 1)) for p in below}

# endregion
# region Real models


def bounds_error():
    import importlib
    for name in ('cheval.core', 'cheval.exceptions', 'cheval', 'cheval.model'):
        try:
            return importlib.import_module(name).UtilityBoundsError
        except (ImportError, AttributeError):
            pass
    return ValueError


def build_tree(model, tree):
    nodes = {}
    for path, scale in tree:
        parent = model if len(path) == 1 else nodes[tuple(path[:-1])]
        nodes[tuple(path)] = parent.add_choice(path[-1], scale)
    return nodes


def build_model(tree, units, matrix, precision=8, how='matrix', dtype=None):
    """A model whose utilities are the given rows of numbers"""
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel
    m = ChoiceModel(precision=precision)
    build_tree(m, tree)
    m.decision_units = make_units(units)
    values = np.array(matrix, dtype=dtype or f'f{precision}').reshape(len(units['labels']), len(tree))
    frame = pd.DataFrame(values, index=m.decision_units, columns=m.choices)
    if how == 'partial':
        m.add_partial_utilities(frame)
    elif how == 'matrix':
        m.declare_matrix('util')
        m['util'].assign(frame)
        m.expressions.append('util')
    elif how == 'table':
        # One column-oriented term per choice
        m.declare_table('t', 0)
        m['t'].assign(pd.DataFrame(values, index=m.decision_units, columns=[f'c{i}' for i in range(len(tree))]))
        for i, (path, _) in enumerate(tree):
            m.expressions.append(f't.c{i} @ ' + '.'.join(path))
    return m


def warm():
    """Compiles everything once, so that the shards find it in the cache"""
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel
    flat = [[['A'], 1.0], [['B'], 1.0]]
    nest = flat + [[['A', 'x'], 1.0], [['A', 'y'], 0.5]]
    for tree in (flat, nest):
        for precision in (4, 8):
            u = {'kind': 'range', 'labels': [0, 1]}
            m = build_model(tree, u, [[0.0] * len(tree)] * 2, precision, 'partial')
            m.run_stochastic(n_threads=2)
            for n in (1, 2):
                m.run_discrete(random_seed=1, n_draws=n)
            for dtype in ('f4', 'f8'):
                for order in ('C', 'F'):
                    a = np.zeros((2, len(tree)), dtype=dtype, order=order)
                    frame = pd.DataFrame(a, index=m.decision_units, columns=m.choices)
                    for rows in (frame, frame.iloc[:1]):
                        for f in (rows, rows.iloc[:, 1:], rows.iloc[:, ::-1]):
                            m.add_partial_utilities(f, reindex_rows=True)

# endregion
