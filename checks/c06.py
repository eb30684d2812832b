"""C06: utilities are the cell-by-cell sum of all expressions"""
from hypothesis import strategies as st

from harness import largemodel
from harness.models import warm  # noqa
from harness.part import Part
from harness.refmodel import HistoryGen, World


@st.composite
def cases(draw, tier, nested):
    g = HistoryGen(draw, nested=nested, max_nodes=8 if tier == 'thorough' else 6, odd_names=not nested)
    g.op_tree()
    order = draw(st.permutations(sorted(g.symbols)))
    g.op_units()
    for name in order:
        g.op_declare(0, name)
    for _ in range(draw(st.integers(1, 6))):
        g.op_expr(0)
    for name in draw(st.permutations(sorted(g.symbols))):
        g.op_assign(0, name)
    if g.chance(4):
        g.op_expr(0)
    g.op_run(0, clear=draw(st.booleans()))
    return g.case()


def run(case, ctx):
    w = World(case, ctx)
    w.go()
    ref = w.ref[0]
    exprs = ref.selected()
    names = ref.names(exprs)
    kinds = {w.specs[n]['kind'] + (str(w.specs[n]['orient']) if w.specs[n]['kind'] in ('vector', 'table', 'matrix') else '')
             for n in names}
    ctx.nontrivial = w.n_runs > 0 and len(exprs) > 0 and (bool(names) or any('{' in e[0] for e in exprs))
    ctx.excluded = w.n_runs == 0
    ctx.label_if(w.n_runs == 0, 'excluded (utilities too large)')
    for k in kinds:
        ctx.label('uses ' + k)
    ctx.label_if(any('{' in e[0] for e in exprs), 'uses dict literals')
    ctx.label_if(any('._' in e[0] for e in exprs), "uses '_' keys")
    ctx.label_if(any(e[1] is not None for e in exprs), "uses '@' filters")
    ctx.label_if(len(kinds) > 2, 'mixes three or more kinds of symbols')
    ctx.label_if(len(exprs) > 1, 'several expressions')
    ctx.label_if(case['precision'] == 4, 'precision 4')


PARTS = [
    Part('multinomial', lambda tier: cases(tier, False), run, 1600, 30000),
    Part('nested', lambda tier: cases(tier, True), run, 2400, 45000),
    Part('large', largemodel.large_models, largemodel.run_sums, 60, 1500),
]
