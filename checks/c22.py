"""C22: looking into a run (debug_id, logger) shows what was evaluated and changes nothing"""
import logging

from hypothesis import strategies as st

from harness import models
from harness.core import require_list, same_value
from harness.models import warm  # noqa
from harness.part import Part
from harness.refmodel import HistoryGen, NotReady, OutOfBounds, RefModel, World

GROUPS = ['g', '']


@st.composite
def cases(draw, tier, nested):
    g = HistoryGen(draw, nested=nested, max_nodes=7, max_units=5, max_symbols=5, links=True)
    g.op_tree()
    g.op_units()
    for name in sorted(g.symbols):
        g.op_declare(0, name)
    for _ in range(draw(st.integers(1, 6))):
        g.op_expr(0, draw(st.sampled_from([None, None] + GROUPS)))
    if g.refs[0].exprs and g.chance(4):  # The same expression twice
        src, filter_, tol = draw(st.sampled_from(g.refs[0].exprs))
        g.emit(0, 'expr', src, filter_, draw(st.sampled_from([None] + GROUPS)), tol)
    g.complete()
    if g.chance(3):
        g.emit(0, 'partial', g.partial(0))
    n = g.refs[0].n()
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        steps.append([draw(st.sampled_from(['run', 'run', 'group', 'discrete', 'preval', 'copy', 'subset', 'off', 'assign'])),
                      draw(st.integers(0, n - 1)), draw(st.integers(0, 3)), draw(st.sampled_from([True, True, False])),
                      draw(st.booleans())])
    case = g.case()
    case['steps'] = steps
    return case


class Records(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.texts = []

    def emit(self, record):
        self.texts.append(record.getMessage())


def raw(e):
    return e[0] if e[1] is None else f'{e[0]} @ {e[1]}'


def values(obj):
    import numpy as np
    return np.asarray(obj)


def same_results(ctx, text, got, want):
    for g, w in zip(got, want):
        a, b = values(g), values(w)
        ctx.require(a.shape == b.shape and list(g.index) == list(w.index), lambda: f'{text}: the results have another shape')
        for x, y in zip(a.ravel().tolist(), b.ravel().tolist()):
            ctx.require(same_value(x, y, 1e-11), lambda: f'{text}: results {a.tolist()} differ from those of the run without, '
                                                         f'{b.tolist()}')


def running(ref, expressions, position):
    """The utilities of a unit after each of the expressions"""
    part = RefModel(ref.precision)
    part.tree, part.units, part.symbols = ref.tree, ref.units, ref.symbols
    total = list(ref.base()[position])
    out = []
    for e in expressions:
        part.exprs = [e]
        row = part.utilities()[position]
        total = [a + b for a, b in zip(total, row)]
        out.append(list(total))
    return out


def check_debug(ctx, text, model, ref, expressions, position):
    import pandas as pd
    table = model.debug_results
    ctx.require(isinstance(table, pd.DataFrame), lambda: f'{text}: debug_results is {table!r}')
    want = running(ref, expressions, position)
    texts = [raw(e) for e in expressions]
    ctx.require(list(table.index) == texts, lambda: f'{text}: debug_results has the rows {list(table.index)}, expected {texts}')
    labels = models.labels(ref.tree_list)
    ctx.require(list(table.columns) == labels, lambda: f'{text}: debug_results has the columns {list(table.columns)}, not {labels}')
    got = values(table).tolist()
    tol = 1e-9 if ref.precision == 8 else 2e-4
    tol += 2 * sum(t for _, _, t in expressions)
    for k, (g, w) in enumerate(zip(got, want)):
        for j, (x, y) in enumerate(zip(g, w)):
            ctx.require(same_value(x, y, tol, tol), lambda: f'{text}: the running utility of {labels[j]!r} after {texts[:k + 1]} '
                                                            f'is {x}, expected {y}')
    ctx.label('debug tables')


def run(case, ctx):
    import pandas as pd
    w = World(case, ctx)
    w.go()
    model, ref = w.real[0], w.ref[0]
    n_shown = 0
    for no, (step, position, threads, scale, log) in enumerate(case['steps']):
        text = f'step {no} {step}, unit {position}'
        position %= max(ref.n(), 1)
        if ref.n() == 0:
            break
        unit = model.decision_units[position]
        group = None
        if step in ('group', 'preval'):
            if not ref.groups:
                continue
            group = sorted(ref.groups)[threads % len(ref.groups)]
        if step == 'copy':
            model.debug_id = unit
            model, ref = ctx.sut(text, model.copy), ref.copy({})
            ctx.require(model.debug_id == unit, lambda: f'{text}: debug_id of the copy is {model.debug_id!r}')
        elif step == 'subset':
            keep = scale  # Whether the unit is in the subset
            mask = [keep if i == position else bool((threads >> i) & 1) for i in range(ref.n())]
            if not any(mask):
                continue
            series = pd.Series(mask, index=model.decision_units)
            model.debug_id = unit
            model, ref = ctx.sut(text, model.copy_subset, series), ref.subset(mask)
            if not keep:
                ctx.label('unit outside of a subset')
                if attempt(ref) is not None:
                    got = ctx.sut(text + ', run', model.run_stochastic, clear_scope=False)
                    model.debug_id = None
                    same_results(ctx, text, got, model.run_stochastic(clear_scope=False))
                continue
            position = sum(mask[:position])
            ctx.require(model.debug_id == unit, lambda: f'{text}: debug_id of the copy is {model.debug_id!r}')
        elif step == 'off':
            before = model.debug_results
            model.debug_id = None
            if attempt(ref) is None:
                continue
            ctx.sut(text, model.run_stochastic, clear_scope=False, scale_utilities=scale)
            ctx.require(model.debug_results is before or model.debug_results is None, f'{text}: debug_results changed without a debug_id')
            continue
        elif step == 'assign':
            numbers = [k for k, (spec, data) in ref.symbols.items() if spec['kind'] == 'number']
            if numbers:
                name = numbers[threads % len(numbers)]
                ctx.sut(text, model[name].assign, position / 4 - 1)
                ref.assign(name, position / 4 - 1)
        utils = attempt(ref, group, scale)
        if utils is None:
            ctx.label('not run')
            continue
        expressions = ref.selected(group)
        kwargs = {'n_threads': threads + 1, 'clear_scope': False}
        handler, logger = Records(), logging.Logger('check', 1)
        logger.addHandler(handler)
        if log:
            kwargs['logger'] = logger
        if step == 'preval':
            model.debug_id = unit
            twin = model.copy()
            twin.debug_id = None
            del kwargs['clear_scope']
            ctx.sut(text, model.preval, group, drop_group=True, cleanup_scope=False, **kwargs)
            check_debug(ctx, text, model, ref, expressions, position)
            twin.preval(group, drop_group=True, cleanup_scope=False)
            ref.preval(group, True, False)
            if attempt(ref, None, scale) is not None:
                same_results(ctx, text, [model.run_stochastic(clear_scope=False)[2]], [twin.run_stochastic(clear_scope=False)[2]])
                check_debug(ctx, f'{text}, then a run', model, ref, ref.selected(), position)
        else:
            if step == 'discrete':
                def call(**more):
                    return model.run_discrete(random_seed=threads, n_draws=3, astype='index', scale_utilities=scale,
                                              **{**kwargs, **more})
            else:
                def call(**more):
                    return model.run_stochastic(group=group, scale_utilities=scale, **{**kwargs, **more})
            model.debug_id = None
            plain = ctx.sut(f'{text}, without debug_id', call, logger=None)
            model.debug_id = unit
            got = ctx.sut(text, call)
            same_results(ctx, text, got, plain)
            check_debug(ctx, text, model, ref, expressions, position)
            table = model.debug_results
            before = values(table).tolist()
            model.debug_id = model.decision_units[(position + 1) % ref.n()]
            ctx.sut(f'{text}, another unit', call, logger=None)
            check_debug(ctx, f'{text}, another unit', model, ref, expressions, (position + 1) % ref.n())
            ctx.require(repr(values(table).tolist()) == repr(before), lambda: f'{text}: the earlier debug_results changed')
            model.debug_id = unit
        n_shown += len(expressions)
        if log:
            check_log(ctx, text, handler.texts, [raw(e) for e in expressions])
    ctx.excluded = n_shown == 0
    ctx.nontrivial = n_shown > 0
    ctx.label_if(any(s[0] == 'preval' for s in case['steps']), 'pre-evaluates')
    ctx.label_if(case['precision'] == 4, 'precision 4')


def check_log(ctx, text, messages, expressions):
    """Every expression is reported, in the order of evaluation"""
    at = 0
    for e in expressions:
        while at < len(messages) and e not in messages[at]:
            at += 1
        ctx.require(at < len(messages), lambda: f'{text}: the expressions {expressions} were logged as {messages}')
        at += 1
    ctx.label('logged')


def attempt(ref, group=None, scale=True):
    from harness.refmodel import OutsideDomain
    try:
        return ref.expected(group, scale)
    except (NotReady, OutOfBounds, OutsideDomain):
        return None


PARTS = [
    Part('multinomial', lambda tier: cases(tier, False), run, 900, 20000),
    Part('nested', lambda tier: cases(tier, True), run, 900, 20000),
]
