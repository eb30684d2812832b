"""C09: running a model changes neither the model nor the caller's data"""
from hypothesis import strategies as st

from harness import models
from harness.models import warm  # noqa
from harness.part import Part
from harness.refmodel import HistoryGen, World


@st.composite
def cases(draw, tier, nested):
    g = HistoryGen(draw, nested=nested, max_nodes=6, max_units=4, max_symbols=4, links=True)
    g.op_tree()
    g.op_units()
    for name in sorted(g.symbols):
        g.op_declare(0, name)
    for _ in range(draw(st.integers(1, 4))):
        g.op_expr(0, draw(st.sampled_from([None, None, 'g'])))
    faults = draw(st.sampled_from(['none', 'none', 'none', 'nan', 'infeasible']))
    switch = None
    if faults != 'none':
        # A number which makes the model fail, or not
        g.symbols['fault_'] = {'kind': 'number', 'orient': 0}
        switch = 'fault_'
        g.op_declare(0, switch)
        g.emit(0, 'expr', {'nan': f'where({switch} > 0, nan, 0.25)', 'infeasible': f'where({switch} > 0, NEG_INF, 0.25)'}[faults],
               None, None, 1e-12)
    for name in draw(st.permutations(sorted(n for n in g.symbols if n != switch))):
        g.op_assign(0, name)
    if switch:
        g.emit(0, 'assign', switch, float(draw(st.integers(0, 1))))
    if g.chance(3):
        g.emit(0, 'partial', g.partial(0))
    for _ in range(draw(st.integers(3, 8 if tier == 'quick' else 14))):
        k = draw(st.integers(0, 12))
        ref = g.refs[0]
        if k <= 2:
            g.op_run(0, draw(st.sampled_from([None, None, None, 'g'])) if 'g' in ref.groups else None)
        elif k <= 4:
            g.op_discrete(0)
        elif k == 5:
            g.emit(0, 'validate', None)
        elif k == 6:
            g.emit(0, 'debug', draw(st.sampled_from([None] + list(range(ref.n())))))
            g.op_run(0)
        elif k == 7:
            g.emit(0, 'copy', {})
            slot = len(g.refs) - 1
            if g.chance(2):
                g.op_run(slot)
                if g.chance(2):
                    g.op_discrete(slot, clear=True)
        elif k == 8:
            # Clear and assign everything again, the same or other values
            if g.chance(2):
                g.emit(0, 'clear_scope')
            else:
                g.op_run(0, clear=True)
            for name in draw(st.permutations(sorted(g.symbols))):
                if name not in g.refs[0].symbols:
                    if g.chance(8):
                        g.op_run(0)  # Not ready
                    g.op_declare(0, name)
                    if g.chance(8):
                        g.op_run(0)
                    g.op_assign(0, name) if name != switch else g.emit(0, 'assign', switch, 0.0)
        elif k == 9 and switch:
            g.emit(0, 'assign', switch, float(draw(st.integers(0, 1))))
            g.op_run(0)
        elif k == 10:
            g.emit(0, 'run', 'no such group', 1, True, True, False)
        elif k == 11:
            g.emit(0, 'partial', g.partial(0))
        else:
            name = draw(st.sampled_from(sorted(n for n in g.symbols if n != switch)))
            g.op_assign(0, name)
    g.op_run(0)
    return g.case()


def run(case, ctx):
    w = World(case, ctx, check_inputs=True)
    w.go()
    ref = w.ref[0]
    # The results must be those of a first run of a fresh equal model, which were computed by the reference model. In
    # addition, other read-only views must be unaffected
    ctx.require(list(w.real[0].choices) == models.labels(ref.tree_list), 'choices were changed')
    ctx.require(list(w.real[0].decision_units) == models.unit_list(ref.units), 'decision units were changed')
    ctx.nontrivial = w.n_runs >= 2
    ops = [o[1] for o in case['ops']]
    ctx.label_if(w.expected_refusals > 0, 'has runs which raise errors')
    ctx.label_if('debug' in ops, 'has debug runs')
    ctx.label_if('copy' in ops, 'has copies')
    ctx.label_if('clear_scope' in ops or any(o[1] == 'run' and o[-1] for o in case['ops']), 'clears the scope and assigns again')
    ctx.label_if('discrete' in ops, 'has discrete runs')
    ctx.label_if(any(s.get('net') for s in case['symbols'].values()), 'has linked tables')
    ctx.label(f'runs: {min(w.n_runs, 6)}{"+" if w.n_runs > 5 else ""}')


PARTS = [
    Part('multinomial', lambda tier: cases(tier, False), run, 900, 18000),
    Part('nested', lambda tier: cases(tier, True), run, 900, 18000),
]
