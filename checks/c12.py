"""C12: a model that is not ready is refused, and so are illegal settings"""
import math

from hypothesis import strategies as st

from harness import models
from harness.models import warm  # noqa
from harness.part import Part
from harness.refmodel import HistoryGen, World

RESERVED = ['nan', 'NEG_INF', 'None', 'NaN']
BAD_SCALES = [0.0, -0.5, 1.0000001, 1.5, 2, -1, math.inf, 'nan']


@st.composite
def cases(draw, tier, nested):
    g = HistoryGen(draw, nested=nested, max_nodes=6, max_units=3, max_symbols=3)
    symbols = sorted(g.symbols)
    todo = [('tree',)] * 4 + [('units',)] * 2 + [('expr',)] * 2 + [('declare', n) for n in symbols] + \
        [('assign', n) for n in symbols] * 2

    def look(slot=0):
        """Something which needs a complete model"""
        ref = g.refs[slot]
        k = draw(st.integers(0, 8))
        have = sorted(ref.groups)
        if k <= 2:
            g.op_run(slot, draw(st.sampled_from([None, None] + have)), clear=g.chance(6))
        elif k == 3:
            g.op_discrete(slot, clear=g.chance(6))
        elif k <= 5:
            g.emit(slot, 'validate', draw(st.sampled_from([None, None] + have)))
        elif k == 6:
            g.emit(slot, 'flags', {f: draw(st.booleans()) for f in ('tree', 'decision_units')},
                   draw(st.sampled_from(['none', 'declared', 'assigned'])))
        elif k == 7:
            illegal()
        elif have and g.in_domain(slot, have[0]):
            g.emit(slot, 'preval', have[0], True, False, 1)

    def illegal():
        g.emit(0, 'illegal', draw(st.sampled_from(list(ILLEGAL))), draw(st.integers(0, 50)))

    remaining = [list(x) for x in g.tree]
    def step(what, name=None):
        ref = g.refs[0]
        if what == 'tree':
            # Parents come first in the list, so that some nests have one child in between
            for _ in range(draw(st.integers(1, 3))):
                if remaining:
                    g.emit(0, 'add', *remaining.pop(0))
            if g.chance(8) and ref.tree:
                # A further, perhaps only, child
                paths = [p for p in ref.tree if len(p) < 3]
                if paths:
                    parent = draw(st.sampled_from(paths))
                    g.emit(0, 'add', list(parent) + [draw(st.sampled_from(['n1', 'n2', 'x1']))], 0.5)
        elif what == 'units':
            g.op_units()
        elif what == 'expr':
            if g.chance(2):
                name = draw(st.sampled_from(symbols))
                # Something simple, so that it depends on single symbols
                spec = g.symbols[name]
                src = name
                kind = spec.get('dtype', 'float')
                if spec['kind'] == 'table':
                    attr = draw(st.sampled_from(sorted(spec['attrs'])))
                    src, kind = f'{name}.{attr}', spec['attrs'][attr]
                if kind in ('texto', 'textc'):
                    src = f"where({src} == 'a', 1, 0)"
                elif kind == 'bool':
                    src = f'where({src}, 1, 0)'
                g.emit(0, 'expr', src, None, draw(st.sampled_from([None, None, 'g', ''])), 1e-12)
            elif not ref.tree or ref.tree_ok():
                g.op_expr(0, draw(st.sampled_from([None, None, 'g', ''])))
        elif what == 'declare':
            g.op_declare(0, name)
        elif what == 'assign' and g.can_assign(0, name):
            g.op_assign(0, name)

    for what in draw(st.permutations(todo)):
        if not g.chance(5):
            step(*what)
        if g.chance(3):
            look()
    # Now make it complete, and break it again
    while remaining:
        g.emit(0, 'add', *remaining.pop(0))
    lonely = [p for p in g.refs[0].tree if len(models.children(g.refs[0].tree_list, list(p))) == 1]
    for p in lonely:
        g.emit(0, 'add', list(p) + ['other'], 0.5)
    if g.chance(8):
        look()
    g.complete()
    valid_filters(g)
    g.op_run(0)
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.integers(0, 6))
        if k == 0:
            g.op_units()
        elif k == 1:
            g.emit(0, 'clear_scope')
        elif k == 2:
            g.op_declare(0, draw(st.sampled_from(symbols)))
        elif k == 3:
            name = draw(st.sampled_from(symbols))
            if g.can_assign(0, name):
                g.op_assign(0, name)
        elif k == 4 and len(g.refs) == 1:
            paths = [p for p in g.refs[0].tree if len(p) < models.depth(g.refs[0].tree_list)] or [()]
            g.emit(0, 'add', list(draw(st.sampled_from(paths + [()]))) + [draw(st.sampled_from(['n1', 'n2']))], 0.5)
            valid_filters(g)
        elif k == 5:
            illegal()
        else:
            g.emit(0, 'expr', draw(st.sampled_from(['undeclared_ + 1', 'undeclared2_.x'])), None, None, 1e-12)
        look()
    look()
    return g.case()


def valid_filters(g):
    """Drop the expressions when they refer to choices which are not there any more"""
    ref = g.refs[0]
    paths = {'.'.join(p) for p in ref.tree}
    if any(f is not None and f not in paths for _, f, _ in ref.selected()):
        g.emit(0, 'clear_expr')


def scale_of(k):
    s = BAD_SCALES[k % len(BAD_SCALES)]
    return math.nan if s == 'nan' else s


the_nodes = []  # Of the model in question


def any_node(m, k):
    return the_nodes[k % len(the_nodes)]


ILLEGAL = {
    'top scale': lambda m, k: m.add_choice('fresh', scale_of(k)),
    'scale of an existing choice': lambda m, k: m.add_choice(any_node(m, k).full_name.split('.')[0], scale_of(k)),
    'nested scale': lambda m, k: any_node(m, k).add_choice('fresh', scale_of(k)),
    'changed scale': lambda m, k: setattr(any_node(m, k), 'logsum_scale', scale_of(k)),
    'dotted name': lambda m, k: m.add_choice(['a.b', '.', 'a.', '.a', 'x.y.z'][k % 5]),
    'nested dotted name': lambda m, k: any_node(m, k).add_choice(['a.b', '.', 'a.', '.a'][k % 4]),
    'reserved choice name': lambda m, k: m.add_choice('_'),
    'nested reserved choice name': lambda m, k: any_node(m, k).add_choice('_'),
    'batch': lambda m, k: m.add_choices(['_' if k % 2 else 'a.b']),
    'precision': lambda m, k: setattr(m, 'precision', [0, 2, 3, 16, 64, 32, -8, '8', None][k % 9]),
    'new precision': lambda m, k: type(m)(precision=[0, 2, 3, 16, 64, 32, -8, None][k % 8]),
    'number name': lambda m, k: m.declare_number(reserved(k)),
    'vector name': lambda m, k: m.declare_vector(reserved(k), 0),
    'table name': lambda m, k: m.declare_table(reserved(k), 0),
    'matrix name': lambda m, k: m.declare_matrix(reserved(k)),
    'vector orientation': lambda m, k: m.declare_vector('fresh', [2, -1, 7][k % 3]),
    'table orientation': lambda m, k: m.declare_table('fresh', [2, -1, 7][k % 3]),
    'matrix orientation': lambda m, k: m.declare_matrix('fresh', [2, -1, 7][k % 3]),
    'draws': lambda m, k: m.run_discrete(random_seed=1, n_draws=[0, -1, -5][k % 3], clear_scope=False),
    'group to run': lambda m, k: m.run_stochastic(group=['nowhere', 5, ('a',)][k % 3], clear_scope=False),
    'group to validate': lambda m, k: m.validate(group=['nowhere', 5, ('a',)][k % 3]),
    'group to prepare': lambda m, k: m.preval(['nowhere', 5, None][k % 3]),
    'group to drop': lambda m, k: m.expressions.drop_group(['nowhere', 5, None][k % 3]),
    'group to get': lambda m, k: m.expressions.get_group(['nowhere', 5, None][k % 3]),
    'undeclared symbol': lambda m, k: m['fresh'],
}


def reserved(k):
    words = ['NAN', 'NEG_INF', 'OUT']
    return words[k % len(words)]


class ReadyWorld(World):
    illegal_done = ()

    def op_illegal(self, slot, what, k):
        m = self.real[slot]
        if not self.ref[slot].tree and what in ('nested scale', 'changed scale', 'nested dotted name',
                                                'nested reserved choice name', 'scale of an existing choice'):
            return
        the_nodes[:] = self.nodes[slot].values()
        self.ctx.refused(f'{self.step} ({what}, {k})', Exception, ILLEGAL[what], m, k)
        self.illegal_done += (what,)

    def op_flags(self, slot, flags, how):
        m, ref = self.real[slot], self.ref[slot]
        kwargs = dict(flags, expressions=how != 'none', assignment=how == 'assigned')
        ok = (not flags['tree'] or ref.tree_ok()) and (not flags['decision_units'] or ref.units is not None)
        names = ref.names(ref.selected())
        if how == 'declared':
            ok = ok and all(n in ref.symbols for n in names)
        elif how == 'assigned':
            ok = ok and all(n in ref.symbols and ref.symbols[n][1] is not None for n in names)
        if ok:
            self.ctx.sut(f'{self.step} validate({kwargs})', m.validate, **kwargs)
        else:
            self.not_ready(m.validate, **kwargs)


def run(case, ctx):
    w = ReadyWorld(case, ctx)
    w.go()
    ctx.nontrivial = w.expected_refusals > 0 or bool(w.illegal_done)
    ctx.label_if(w.expected_refusals > 0, 'not ready')
    ctx.label_if(w.expected_refusals > 0 and w.n_runs > 0, 'not ready, and ready at some other time')
    ctx.label_if(w.n_runs > 0, 'ready')
    for x in set(w.illegal_done):
        ctx.label('illegal ' + x)


PARTS = [
    Part('multinomial', lambda tier: cases(tier, False), run, 1000, 20000),
    Part('nested', lambda tier: cases(tier, True), run, 1200, 24000),
]
