"""C13: the choice tree is reported as it was built"""
from hypothesis import strategies as st

from harness import models
from harness.models import warm  # noqa
from harness.part import Part
from harness.refmodel import RefModel, compare

NAMES = ['A', 'AA', 'B', 'a', 'x1', 'car', 'x y', '9', 'é', 'A_']


@st.composite
def cases(draw, tier):
    n = draw(st.integers(2, 14 if tier == 'quick' else 25))
    max_depth = draw(st.sampled_from([3, 4, 2, 3, 1]))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=6, unique=True))
    ref = RefModel()
    ops = []

    def add(path, scale):
        ops.append(['add', path, scale])
        ref.add(path, scale)

    def complete():
        """So that the model can be run"""
        while sum(1 for p in ref.tree if len(p) == 1) < 2:
            add([next(x for x in names if (x,) not in ref.tree)], 1.0)
        while True:
            lonely = [p for p in ref.tree if len(models.children(ref.tree_list, list(p))) == 1]
            if not lonely:
                return
            p = draw(st.sampled_from(lonely))
            add(list(p) + [draw(st.sampled_from([x for x in names if p + (x,) not in ref.tree]))], draw(scale()))

    def scale():
        return st.sampled_from([1.0, 0.5, 0.75, 0.3, 1])

    for _ in range(n):
        k = draw(st.sampled_from([9] * 8 + [4, 3, 1, 1, 0]))
        if k == 0:
            batch = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True))
            scales = draw(st.one_of(st.none(), st.lists(scale(), min_size=len(batch), max_size=len(batch))))
            ops.append(['batch', batch, scales])
            for i, x in enumerate(batch):
                ref.add([x], scales[i] if scales else 1.0)
        elif k <= 2 and ref.tree:
            # Replace something
            add(list(draw(st.sampled_from(list(ref.tree)))), draw(scale()))
        elif k == 3:
            if draw(st.booleans()):
                complete()
            ops.append(run_op(draw, ref))
        elif k == 4 and ref.tree:
            path = draw(st.sampled_from(list(ref.tree)))
            s = draw(scale())
            ops.append(['rescale', list(path), s])
            ref.tree[path] = s
        else:
            below = [p for p in ref.tree if len(p) < max_depth]
            form = draw(st.sampled_from([2, 3, 2, 1, 0]))
            parent = () if form == 0 or not below else draw(st.sampled_from(below[-3:] if form > 1 else below))
            free = [x for x in names if parent + (x,) not in ref.tree]
            add(list(parent) + [draw(st.sampled_from(free or names))], draw(scale()))
    complete()
    ops.append(run_op(draw, ref))
    return {'ops': ops, 'threads': draw(st.integers(1, 3)), 'units': draw(st.integers(1, 3)), 'hold': draw(st.booleans())}


def run_op(draw, ref):
    return ['run', [[draw(st.integers(-16, 16)) / 8 for _ in ref.tree] for _ in range(3)]]


def run(case, ctx):
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel, ModelNotReadyError
    m = ChoiceModel()
    m.decision_units = pd.RangeIndex(case['units'])
    ref = RefModel()
    ref.set_units({'kind': 'range', 'labels': list(range(case['units']))})
    nodes = {}  # The live nodes, as a user would hold on to
    m.declare_matrix('u')
    m.expressions.append('u')
    runs = replaced = 0

    def forget(path):
        for p in [p for p in nodes if p[:len(path)] == path]:
            del nodes[p]

    def check(step):
        tree = ref.tree_list
        if not tree:
            return
        d = models.depth(tree)
        ctx.require(m.depth == d, lambda: f'{step}: depth is {m.depth}, expected {d} ({tree})')
        if ref.tree_ok():
            expected = models.labels(tree)
            got = ctx.sut(f'{step}: choices', lambda: m.choices)
            ctx.require(list(got) == expected, lambda: f'{step}: choices are {list(got)}, expected {expected}')
            ctx.require(got.nlevels == d, lambda: f'{step}: choices have {got.nlevels} levels')
            expected = [models.label(p, d) for p in models.leaves(tree)]
            got = ctx.sut(f'{step}: elemental choices', lambda: m.elemental_choices)
            ctx.require(list(got) == expected, lambda: f'{step}: elemental choices are {list(got)}, expected {expected}')
        else:
            ctx.refused(f'{step}: choices of an incomplete tree', ModelNotReadyError, lambda: m.choices)
        for path, node in nodes.items():
            kids = [tuple(k) for k in models.children(tree, list(path))]
            where = f'{step}: node {path}'
            ctx.require(node.name == path[-1], lambda: f'{where} has the name {node.name}')
            ctx.require(str(node) == path[-1], lambda: f'{where} has the text {node}')
            ctx.require(node.full_name == '.'.join(path), lambda: f'{where} has the full name {node.full_name}')
            ctx.require(node.level == len(path), lambda: f'{where} has level {node.level}')
            ctx.require(node.n_children == len(kids), lambda: f'{where} has {node.n_children} children, expected {kids}')
            ctx.require(node.is_parent == bool(kids), lambda: f'{where}: is_parent is {node.is_parent}')
            got_kids = list(node.children())
            ctx.require(len(got_kids) == len(kids) and all(any(c is nodes[k] for c in got_kids) for k in kids),
                        lambda: f'{where} has the children {got_kids}, expected {kids}')
            ctx.require(node.parent is (nodes[path[:-1]] if len(path) > 1 else None), lambda: f'{where} has the parent {node.parent}')
            ctx.require(node.logsum_scale == ref.tree[path], lambda: f'{where} has the scale {node.logsum_scale}')
            deepest = max(len(p) for p, _ in tree if tuple(p[:len(path)]) == path)
            ctx.require(node.max_level() == deepest, lambda: f'{where} has the greatest level {node.max_level()}, expected {deepest}')

    for number, (op, *args) in enumerate(case['ops']):
        step = f'step {number} {op}'
        if op == 'add':
            path, scale = tuple(args[0]), args[1]
            parent = m if len(path) == 1 else nodes[path[:-1]]
            replaced += path in nodes
            forget(path)
            nodes[path] = ctx.sut(step, parent.add_choice, path[-1], scale)
            ref.add(path, scale)
        elif op == 'batch':
            names, scales = args
            for x in names:
                replaced += (x,) in nodes
                forget((x,))
            result = ctx.sut(step, lambda: m.add_choices(list(names)) if scales is None else m.add_choices(names, scales))
            ctx.require(list(result) == list(names), lambda: f'{step} returned {result}')
            for k, x in enumerate(names):
                nodes[(x,)] = result[x]
                ref.add([x], scales[k] if scales else 1.0)
        elif op == 'rescale':
            nodes[tuple(args[0])].logsum_scale = args[1]
            ref.tree[tuple(args[0])] = args[1]
        elif op == 'run' and not ref.tree_ok():
            ctx.refused(f'{step} of an incomplete tree', ModelNotReadyError, m.run_stochastic, clear_scope=False)
            ctx.refused(f'{step} of an incomplete tree', ModelNotReadyError, m.run_discrete, clear_scope=False)
        elif op == 'run':
            runs += 1
            tree = ref.tree_list
            values = np.array(args[0], dtype='f8')[:case['units']]
            ctx.sut(f'{step}: assign', m['u'].assign, pd.DataFrame(values, index=m.decision_units, columns=m.choices))

            def stochastic(model=m):
                p, top, terms = model.run_stochastic(n_threads=case['threads'], clear_scope=False)
                return (np.asarray(p.values, dtype='f8'), list(p.columns), list(p.index), np.asarray(top.values, 'f8'),
                        list(top.index), np.asarray(terms.values, 'f8'), list(terms.columns), list(terms.index))

            def discrete(model=m):
                r, ls = model.run_discrete(random_seed=number, n_draws=3, astype='object', clear_scope=False)
                return [list(r.iloc[:, k]) for k in range(3)]
            expected = [models.logit(tree, row)[:3] for row in values]
            compare(ctx, step, ref, ctx.sut(step, stochastic), expected, values, 1e-12)
            got = ctx.sut(step, discrete)
            fresh = models.build_model(tree, ref.units, values.tolist(), 8, 'matrix')
            want = ctx.sut('a new model without the replaced parts', discrete, fresh)
            ctx.require(got == want, lambda: f'{step}: choices {got} differ from those of a new model, {want}')
        check(step)
    ctx.nontrivial = runs > 0 and len(ref.tree) > 2
    ctx.label(f'depth {models.depth(ref.tree_list)}')
    ctx.label_if(replaced > 0, 'replaces choices')
    ctx.label_if(any(o[0] == 'batch' for o in case['ops']), 'adds several choices at once')
    ctx.label_if(runs > 1, 'several runs')


PARTS = [
    Part('trees', cases, run, 2400, 50000),
]
