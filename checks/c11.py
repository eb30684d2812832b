"""C11: copies are equal and independent, and a subset copy equals masking the rows"""
from hypothesis import strategies as st

from harness import largemodel
from harness.models import warm  # noqa
from harness.part import Part
from harness.refmodel import HistoryGen, World

GROUPS = ['g', '']
FLAGS = ['decision_units', 'scope_declared', 'scope_assigned', 'expressions', 'utilities']


@st.composite
def cases(draw, tier, subset):
    g = HistoryGen(draw, max_nodes=6, max_units=6 if subset else 4, max_symbols=5, links=True)
    g.op_tree()
    g.op_units()
    for name in sorted(g.symbols):
        g.op_declare(0, name)
    for _ in range(draw(st.integers(1, 5))):
        g.op_expr(0, draw(st.sampled_from([None, None] + GROUPS)))
    for name in sorted(g.symbols):
        if not g.chance(8):
            g.op_assign(0, name)

    def mutate(slot):
        ref = g.refs[slot]
        have = sorted(ref.groups)
        k = draw(st.integers(0, 11))
        if k == 0 and have:
            group = draw(st.sampled_from(have))
            if g.in_domain(slot, group):
                g.emit(slot, 'preval', group, draw(st.sampled_from([True, True, False])), draw(st.booleans()), 2)
        elif k == 1 and have:
            g.emit(slot, 'drop', draw(st.sampled_from(have)))
        elif k in (2, 3) and ref.units is not None and ref.n():
            g.emit(slot, 'partial', g.partial(slot))
        elif k in (4, 5):
            g.op_expr(slot, draw(st.sampled_from([None, 'g'])))
        elif k in (6, 7):
            name = draw(st.sampled_from(sorted(g.symbols)))
            if ref.units is not None and not ref.n():
                return  # Text data without any values cannot be assigned
            if g.can_assign(slot, name):
                g.op_assign(slot, name)
            else:
                g.op_declare(slot, name)
        elif k == 8:
            g.emit(slot, 'clear_scope')
        elif k == 9:
            g.emit(slot, 'clear_expr')
        elif k == 10:
            g.op_units(slot)
        else:
            g.op_run(slot)

    def copy(slot):
        ref = g.refs[slot]
        if ref.units is None or not ref.n():
            return
        if subset or g.chance(4):
            n = ref.n()
            mask = draw(st.lists(st.booleans(), min_size=n, max_size=n))
            if g.chance(8):
                mask = [draw(st.booleans())] * n
            if not any(mask) and not g.chance(3):
                mask[draw(st.integers(0, n - 1))] = True
            g.emit(slot, 'subset', mask)
        elif g.chance(2):
            g.emit(slot, 'copy', {})
        else:
            g.emit(slot, 'copy', {f: draw(st.booleans()) for f in draw(st.lists(st.sampled_from(FLAGS), unique=True))})

    if g.chance(3):
        mutate(0)
    if g.chance(3):
        g.op_run(0)
    copy(0)
    for _ in range(draw(st.integers(1, 7 if tier == 'quick' else 12))):
        slot = draw(st.integers(0, len(g.refs) - 1))
        if len(g.refs) < 4 and g.chance(4):
            copy(slot)
        else:
            mutate(slot)
        if g.chance(3):
            g.op_run(draw(st.integers(0, len(g.refs) - 1)))
    for slot in draw(st.permutations(range(len(g.refs)))):
        g.op_run(slot, check=g.chance(2))
        if g.refs[slot].units is not None and g.refs[slot].n() and not g.refs[slot].ready() and g.chance(3):
            g.complete(slot)
            g.op_run(slot)
        if g.refs[slot].units is not None and g.refs[slot].n() and g.chance(2):
            g.op_discrete(slot)
    for slot in range(len(g.refs)):
        for group in sorted(g.refs[slot].groups):
            g.op_run(slot, group)
    return g.case()


def run(case, ctx):
    w = World(case, ctx, check_inputs=True)
    w.go()
    ops = [o for o in case['ops']]
    slots = {s for s, _ in w.run_labels}
    ctx.nontrivial = len(slots) > 1
    for o in ops:
        if o[1] == 'copy':
            ctx.label('full copies' if not o[2] else 'copies of some parts only')
        elif o[1] == 'subset':
            ctx.label('subset copies')
            ctx.label_if(not any(o[2]), 'empty subsets')
    ctx.label_if(any(o[1] in ('partial', 'preval') for o in ops), 'has accumulated utilities')
    ctx.label_if(w.expected_refusals > 0, 'has refusals')
    ctx.label_if(any(s.get('net') for s in case['symbols'].values()), 'has linked tables')


PARTS = [
    Part('copies', lambda tier: cases(tier, False), run, 900, 18000),
    Part('subsets', lambda tier: cases(tier, True), run, 1100, 22000),
    Part('large', largemodel.large_models, largemodel.run_subset, 40, 1000),
]
