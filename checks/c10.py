"""C10: groups, pre-evaluation and partial tables add up to the whole"""
from hypothesis import strategies as st

from harness import largemodel
from harness.models import warm  # noqa
from harness.part import Part
from harness.refmodel import HistoryGen, World

GROUPS = ['g', 'h', 'k', 'util']


@st.composite
def cases(draw, tier, nested):
    g = HistoryGen(draw, nested=nested, max_nodes=6, max_units=4, max_symbols=5, links=True)
    groups = draw(st.lists(st.sampled_from(GROUPS), min_size=1, max_size=3, unique=True))
    if g.chance(4):
        groups = [7, None][:1] + groups[1:]  # Any hashable is a group
    g.op_tree()
    g.op_units()
    early = g.chance(4)
    for name in sorted(g.symbols):
        if not early or g.chance(2):
            g.op_declare(0, name)
    for _ in range(draw(st.integers(2, 6))):
        g.op_expr(0, draw(st.sampled_from([None] + groups)))
    # Expressions which share symbols over groups make it interesting
    if g.refs[0].groups and g.chance(2):
        src, filter_, tol = draw(st.sampled_from([e for es in g.refs[0].groups.values() for e in es]))
        g.emit(0, 'expr', src, filter_, draw(st.sampled_from([None] + groups)), tol)
    g.complete()

    def more(slot):
        ref = g.refs[slot]
        have = sorted(ref.groups, key=str)
        k = draw(st.integers(0, 13))
        if k <= 3 and have:
            group = draw(st.sampled_from(have))
            if g.in_domain(slot, group):
                g.emit(slot, 'preval', group, draw(st.sampled_from([True, True, False])), draw(st.booleans()),
                       draw(st.integers(1, 4)))
        elif k == 4 and have:
            g.emit(slot, 'drop', draw(st.sampled_from(have)))
        elif k == 5:
            g.emit(slot, 'partial', g.partial(slot))
        elif k == 6:
            g.op_expr(slot, draw(st.sampled_from([None] + groups)))
        elif k <= 8 and have:
            g.op_run(slot, draw(st.sampled_from(have)))
        elif k == 9 and slot == 0 and len(g.refs) < 3:
            g.emit(0, 'copy', {})
        elif k == 10:
            g.emit(slot, 'validate', draw(st.sampled_from([None] + groups)))
        elif k == 11:
            # Give a symbol another value
            name = draw(st.sampled_from(sorted(g.symbols)))
            if g.can_assign(slot, name):
                g.op_assign(slot, name)
        elif k == 12:
            g.op_discrete(slot)
        else:
            g.op_run(slot)

    for _ in range(draw(st.integers(2, 7 if tier == 'quick' else 12))):
        more(draw(st.integers(0, len(g.refs) - 1)))
    for slot, ref in enumerate(g.refs):
        g.op_run(slot)  # Perhaps refused, when a group could not be prepared
        if not ref.ready() and g.chance(2):
            g.complete(slot)
            g.op_run(slot)
        for group in sorted(ref.groups, key=str):
            g.op_run(slot, group)
    return g.case()


def run(case, ctx):
    w = World(case, ctx)
    w.go()
    ops = [o[1:] for o in case['ops']]
    prevals = [o for o in ops if o[0] == 'preval']
    groups = {o[3] for o in ops if o[0] == 'expr'}
    ctx.nontrivial = w.n_runs > 0 and len(groups - {None}) > 0 and (
        bool(prevals) or any(o[0] in ('drop', 'partial') for o in ops) or any(g for _, g in w.run_labels))
    ctx.label_if(bool(prevals), 'pre-evaluates')
    ctx.label_if(any(not o[2] for o in prevals), 'keeps a pre-evaluated group')
    ctx.label_if(any(o[3] for o in prevals), 'cleans up the scope')
    ctx.label_if(any(o[0] == 'drop' for o in ops), 'drops a group')
    ctx.label_if(any(o[0] == 'partial' for o in ops), 'adds partial tables')
    ctx.label_if(len(groups) > 1, 'several groups')
    ctx.label_if(any(g is not None for _, g in w.run_labels), 'runs a single group')
    ctx.label_if(w.expected_refusals > 0, 'has refusals')


PARTS = [
    Part('multinomial', lambda tier: cases(tier, False), run, 1100, 22000),
    Part('nested', lambda tier: cases(tier, True), run, 1100, 22000),
    Part('large', largemodel.large_models, largemodel.run_groups, 40, 1000),
]
