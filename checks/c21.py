"""C21: expression containers hold exactly what was put into them"""
from hypothesis import strategies as st

from harness.core import require_list
from harness.part import Part

NAMES = ['p0', 'p1', 'p2', 'p3', 'p4', 'P0']
# Text over {0} and {1}, the names which it uses as plain and as dotted symbols, its value
TEMPLATES = [
    ('{0}', '0', '', lambda x, y: x), ('{0} * 2', '0', '', lambda x, y: x * 2), ('{0} + {1}', '01', '', lambda x, y: x + y),
    ('{0}.v', '', '0', lambda x, y: x), ('{0}.v - {1}.v', '', '01', lambda x, y: x - y),
    ('{0}  +  2 ', '0', '', lambda x, y: x + 2), ('{0} - 1\n', '0', '', lambda x, y: x - 1), ('({0}\n  * 2) # {1}', '0', '', lambda x, y: x * 2),
    ('{0} * {1}.v', '0', '1', lambda x, y: x * y), ('where({0} > 0, {1}, 1)', '01', '', lambda x, y: y if x > 0 else 1),
    ('where({0}.v > 0, 2, {1})', '1', '0', lambda x, y: 2 if x > 0 else y), ('1.5', '', '', lambda x, y: 1.5),
    ('{{A: 1.25, B: 1.25}} * {0}', '0', '', lambda x, y: 1.25 * x), ('{{A: 2, B: 2}}', '', '', lambda x, y: 2.0),
    ('where({0} > 99, NEG_INF, {0})', '0', '', lambda x, y: x), ('-{0}', '0', '', lambda x, y: -x),
    ('({0} > 0) and ({1}.v > 0)', '0', '1', lambda x, y: float(x > 0 and y > 0)),
]
BAD = ['{0} +', '{0} if {1} else 2', '[{0}, {1}]', 'nofunction({0})', '{0}.v.nothing(1)', '{0} @ A @ B', '{0}.sum(a=1)', '{{{0}: {1}}}',
       'def {0}', '{0} in {1}', 'lambda: {0} +']
GROUPS = ['g', 'h', 'G', 'g ', 3, 'util', '', 0]


@st.composite
def cases(draw, tier):
    n_slots, kinds = 1, ['model']
    ops = []
    for _ in range(draw(st.integers(3, 14 if tier == 'quick' else 30))):
        slot = draw(st.integers(0, n_slots - 1))
        group = draw(st.sampled_from([None, None] + GROUPS[:4] + GROUPS))
        k = draw(st.integers(0, 19))
        names = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=2, unique=True))
        template = draw(st.integers(0, len(TEMPLATES) - 1))
        if k <= 8:
            ops.append(['append', slot, template, names, group])
        elif k == 9:
            ops.append(['bad', slot, draw(st.integers(0, len(BAD) - 1)), names, group])
        elif k == 10 and kinds[slot] == 'model':
            ops.append(['set', slot, [[template, names], [draw(st.integers(0, len(TEMPLATES) - 1)), names[::-1]]]])
        elif k <= 12:
            ops.append(['drop', slot, group if group is not None else 'g'])
        elif k == 13:
            ops.append(['clear', slot])
        elif k == 14 and n_slots < 5:
            ops.append(['copy', slot])
            n_slots, kinds = n_slots + 1, kinds + ['group']
        elif k <= 16 and n_slots < 5:
            ops.append(['add', slot, draw(st.integers(0, n_slots - 1))])
            n_slots, kinds = n_slots + 1, kinds + ['group']
        elif k == 17 and kinds[slot] == 'model' and n_slots < 5:
            flag = draw(st.booleans())
            ops.append(['copy model', slot, flag, draw(st.booleans())])
            n_slots, kinds = n_slots + 1, kinds + ['model']
        elif k == 18 and n_slots < 5:
            ops.append(['new', 0])
            n_slots, kinds = n_slots + 1, kinds + ['group']
        else:
            ops.append(['look', slot])
    return {'ops': ops, 'values': {n: draw(st.integers(-8, 8)) / 4 for n in NAMES}}


class Model:
    """What a container should hold"""

    def __init__(self):
        self.plain, self.groups = [], {}

    def copy(self):
        new = Model()
        new.plain = list(self.plain)
        new.groups = {k: list(v) for k, v in self.groups.items()}
        return new

    def __add__(self, other):
        new = self.copy()
        new.plain += other.plain
        for name, entries in other.groups.items():
            new.groups[name] = new.groups.get(name, []) + entries
        return new

    def entries(self, group=None):
        if group is not None:
            return self.groups[group]
        return self.plain + [e for es in self.groups.values() for e in es]

    def simple(self, entries=None):
        return {n for e in (self.entries() if entries is None else entries) for n in e[1]}

    def chained(self, entries=None):
        return {n for e in (self.entries() if entries is None else entries) for n in e[2]}


def entry_of(template, names):
    text, simple, chained, fn = TEMPLATES[template]
    reserved = {'NEG_INF'} if 'NEG_INF' in text else set()
    return text.format(*names), {names[int(i)] for i in simple} | reserved, {names[int(i)] for i in chained}, fn, names


RESERVED = {'NEG_INF', 'NAN', 'OUT', '__NAN', '__OUT', '__NEG_INF'}


def look(ctx, text, container, want):
    raws = [e[0] for e in want.entries()]
    require_list(ctx, f'{text}: all expressions', [e.raw for e in ctx.sut(f'{text}: iterating', list, container)], raws)
    require_list(ctx, f'{text}: tolist()', ctx.sut(f'{text}: tolist()', container.tolist), [e[0] for e in want.plain])
    require_list(ctx, f'{text}: tolist(False)', [e.raw for e in container.tolist(raw=False)], [e[0] for e in want.plain])
    groups = ctx.sut(f'{text}: itergroups()', lambda: list(container.itergroups()))
    ctx.require([g.name for g in groups] == list(want.groups),
                lambda: f'{text}: has the groups {[g.name for g in groups]}, expected {list(want.groups)}')
    for (name, entries), group in zip(want.groups.items(), groups):
        for how, g in (('itergroups()', group), ('get_group()', ctx.sut(f'{text}: get_group({name!r})', container.get_group, name))):
            require_list(ctx, f'{text}: {how} {name!r}', [e.raw for e in g], [e[0] for e in entries])
            for which, got, expected in (('itersimple', g.itersimple(), want.simple(entries)),
                                         ('iterchained', g.iterchained(), want.chained(entries))):
                got = set(got) - RESERVED
                ctx.require(got == expected - RESERVED, lambda: f'{text}: {how} {name!r}: {which}() gives {sorted(got)}, expected '
                                                                f'{sorted(expected)}')
    for groups_too in (True, False):
        entries = want.entries() if groups_too else want.plain
        for which, expected in (('itersimple', want.simple(entries)), ('iterchained', want.chained(entries))):
            got = set(getattr(container, which)(groups=groups_too)) - RESERVED
            ctx.require(got == expected - RESERVED, lambda: f'{text}: {which}(groups={groups_too}) gives {sorted(got)}, expected '
                                                            f'{sorted(expected)}')
    for e, (raw, simple, chained, *_) in zip(container, want.entries()):
        got = set(e.all_symbols) - RESERVED
        ctx.require(got == (simple | chained) - RESERVED, lambda: f'{text}: {raw!r} uses {sorted(got)}')
    for name in set(GROUPS) - set(want.groups):
        ctx.refused(f'{text}: get_group({name!r})', KeyError, container.get_group, name)


def run_model(ctx, text, model, want, values):
    """What the model computes is the sum of what it holds"""
    import numpy as np
    import pandas as pd
    if want.simple() & want.chained():
        return False
    model.clear_scope()
    for n in want.simple() - RESERVED:
        model.declare_number(n)
        model[n].assign(values[n])
    for n in want.chained():
        model.declare_table(n, 0)
        model[n].assign(pd.DataFrame({'v': [values[n]] * 2}, index=model.decision_units))
    for group in [None] + list(want.groups):
        expected = 0.0
        for raw, _, _, fn, names in want.entries(group):
            expected += fn(values[names[0]], values[names[1]])
        if abs(expected) > 300:
            continue
        terms = ctx.sut(f'{text}: run(group={group!r})', lambda: model.run_stochastic(group=group, clear_scope=False)[2])
        got = np.log(np.asarray(terms, dtype='f8')).ravel().tolist()
        require_list(ctx, f'{text}: utilities of group {group!r} ({[e[0] for e in want.entries(group)]})', got, [expected] * 4,
                     abs_=1e-6)
    for group in set(GROUPS) - set(want.groups):
        ctx.refused(f'{text}: run(group={group!r})', KeyError, model.run_stochastic, group=group, clear_scope=False)
    return True


def run(case, ctx):
    import pandas as pd
    from cheval import ChoiceModel
    first = ChoiceModel()
    first.add_choices(['A', 'B'])
    first.decision_units = pd.Index([1, 2])
    models, real, ref, n_changes = [first], [first.expressions], [Model()], 0
    shared = 0
    for no, (op, slot, *args) in enumerate(case['ops']):
        text = f'step {no} {op} {args} on {slot}'
        container, want = real[slot], ref[slot]
        if models[slot] is not None:
            container = models[slot].expressions
        if op == 'append':
            template, names, group = args
            entry = entry_of(template, names)
            # (Containers which got added together can be inconsistent in symbols which this expression doesn't use)
            want_refusal = bool(entry[1] & (want.chained() | entry[2]) or entry[2] & want.simple())
            if want_refusal:
                ctx.refused(f'{text} {entry[0]!r}', Exception, container.append, entry[0], group)
                ctx.label('inconsistent use refused')
            else:
                ctx.sut(f'{text} {entry[0]!r}', container.append, entry[0], group)
                n_changes += 1
                (want.plain if group is None else want.groups.setdefault(group, [])).append(entry)
        elif op == 'bad':
            no_, names, group = args
            ctx.refused(text, Exception, container.append, BAD[no_].format(*names), group)
            ctx.label('bad syntax refused')
        elif op == 'set':
            entries = [entry_of(*x) for x in args[0]]
            trial = want.copy()
            ok = True
            for e in entries:
                trial.plain.append(e)
                ok = ok and not (trial.simple() & trial.chained())
            if ok:
                ctx.sut(text, setattr, models[slot], 'expressions', [e[0] for e in entries])
                want.plain.extend(entries)
                ctx.label('set')
        elif op == 'drop':
            if args[0] in want.groups:
                ctx.sut(text, container.drop_group, args[0])
                del want.groups[args[0]]
                ctx.label('dropped a group')
            else:
                ctx.refused(text, KeyError, container.drop_group, args[0])
        elif op == 'clear':
            ctx.sut(text, container.clear)
            want.plain, want.groups = [], {}
        elif op in ('copy', 'add', 'new', 'copy model'):
            model = None
            if op == 'copy':
                new, new_want = ctx.sut(text, container.copy), want.copy()
            elif op == 'new':
                new, new_want = type(container)(), Model()
            elif op == 'add':
                new, new_want = ctx.sut(text, lambda: container + real[args[0]]), want + ref[args[0]]
            else:
                model = ctx.sut(text, models[slot].copy, expressions=args[0], scope_assigned=args[1])
                if not args[1]:
                    model.decision_units = pd.Index([1, 2])
                new, new_want = model.expressions, want.copy() if args[0] else Model()
            shared += bool(new_want.entries())
            ctx.label(op)
            models.append(model)
            real.append(new)
            ref.append(new_want)
        # Nothing may have changed in any of them but what was asked for
        for i in range(len(ref)) if op != 'look' else [slot]:
            c = real[i] if models[i] is None else models[i].expressions
            look(ctx, f'{text}: container {i}', c, ref[i])
    ran = 0
    for i, model in enumerate(models):
        if model is not None:
            ran += run_model(ctx, f'in the end, model {i}', model, ref[i], case['values'])
    ctx.label('models run', ran)
    ctx.label_if(shared > 0, 'copies or sums of something')
    ctx.nontrivial = n_changes >= 2


PARTS = [Part('histories', cases, run, 2500, 40000)]
