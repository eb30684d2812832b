"""C07: assigned data are matched to units and choices by label, or rejected"""
from hypothesis import strategies as st

from harness import models
from harness.models import warm  # noqa
from harness.part import Part
from harness.refmodel import HistoryGen, World

BAD = {
    'number': ['text', 'none', 'list'],
    'vector': ['permuted', 'subset', 'other', 'longer', 'swapped', 'array short', 'array long', 'array 2d', 'list', 'frame',
               'datetime', 'none'],
    'table': ['permuted', 'subset', 'other', 'longer', 'swapped', 'series', 'array', 'dict', 'mandatory', 'linked', 'none'],
    'matrix': ['unknown row', 'unknown column', 'transposed', 'series', 'array', 'dict', 'no rows reindex',
               'no columns reindex', 'flat columns', 'short array'],
    'partial': ['unknown row', 'unknown column', 'rows', 'columns', 'transposed', 'flat columns', 'text'],
}


@st.composite
def cases(draw, tier, nested):
    g = HistoryGen(draw, nested=nested, max_nodes=7, kinds=['matrix', 'matrix', 'matrix', 'vector', 'table', 'number'],
                   max_symbols=4, max_units=5)
    for spec in g.symbols.values():
        if spec['kind'] == 'matrix' and g.chance(2):
            spec['reindex'] = [draw(st.booleans()), draw(st.booleans())]
        if spec['kind'] == 'table':
            spec['mandatory'] = draw(st.lists(st.sampled_from(sorted(spec['attrs'])), unique=True))
            spec['links'] = draw(st.booleans())
    g.op_tree()
    g.op_units()
    for name in sorted(g.symbols):
        g.op_declare(0, name)
    # Every symbol is used
    for name in draw(st.permutations(sorted(g.symbols))):
        spec = g.symbols[name]
        kinds = spec['attrs'].items() if spec['kind'] == 'table' else [(None, spec.get('dtype', 'float'))]
        for attr, kind in kinds:
            src = name if attr is None else f'{name}.{attr}'
            if kind in ('texto', 'textc'):
                src = f"where({src} == 'ab', 1.5, 0.25)"
            elif kind == 'bool':
                src = f'where({src}, 2, 0.5)'
            g.emit(0, 'expr', src, None, None, 1e-12)
    for _ in range(draw(st.integers(0, 2))):
        g.op_expr(0)

    def bad(kind, name):
        g.emit(0, 'bad', kind, name, draw(st.sampled_from(BAD[kind])), draw(st.integers(0, 5)))

    for name in draw(st.permutations(sorted(g.symbols))):
        if g.chance(3):
            bad(g.symbols[name]['kind'], name)
            if g.chance(3):
                g.emit(0, 'run', None, 1, True, True, False)  # Not ready
        g.op_assign(0, name)
        if g.chance(3):
            bad(g.symbols[name]['kind'], name)
    for _ in range(draw(st.integers(0, 2))):
        if g.chance(2):
            bad('partial', None)
        else:
            g.emit(0, 'partial', g.partial(0))
    g.op_run(0)
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.integers(0, 3))
        name = draw(st.sampled_from(sorted(g.symbols)))
        if k == 0:
            g.op_assign(0, name)
        elif k == 3:
            bad('partial', None)
        else:
            bad(g.symbols[name]['kind'], name)
    g.op_run(0)
    return g.case()


class BadWorld(World):
    bad_done = ()

    def op_bad(self, slot, kind, name, what, k):
        import numpy as np
        import pandas as pd
        from cheval import LinkedDataFrame
        m, ref, ctx = self.real[slot], self.ref[slot], self.ctx
        units, choices = m.decision_units, m.choices
        if kind == 'number':
            data = {'text': 'abc', 'none': None, 'list': [1.0]}[what]
            ctx.refused(f'{self.step}: assigning {what} to a number', Exception, m[name].assign, data)
            self.bad_done += (f'{kind}: {what}',)
            return
        if kind in ('vector', 'table'):
            spec = ref.symbols[name][0]
            own, other = (choices, units) if spec['orient'] else (units, choices)
            n = len(own)
            index, rotate = own, 1 + k % max(n - 1, 1)
            if what == 'permuted':
                if n < 2:
                    return
                index = own[list(range(rotate, n)) + list(range(rotate))]
            elif what == 'subset':
                index = own[:n - 1]
            elif what == 'other':
                index = pd.Index([f'other {i}' for i in range(n)])
                if k % 2:  # Only the last one is unknown
                    index = pd.Index(list(own)[:-1] + ['other']) if own.nlevels == 1 else index
            elif what == 'longer':
                index = own.append(own[:1])
            elif what == 'swapped':
                if other.equals(own):
                    return
                index = other
            values = np.array([(7 * i + k) % 5 / 4 for i in range(len(index))])
            if kind == 'vector':
                data = pd.Series(values, index=index)
                data = {'array short': values[:-1], 'array long': np.append(values, 1.0), 'array 2d': values.reshape(-1, 1),
                        'list': list(values), 'frame': pd.DataFrame({'a': data}), 'none': None,
                        'datetime': pd.Series(pd.Timestamp('2020-01-01'), index=own)}.get(what, data)
            else:
                attrs = sorted(set(spec['attrs']) | set(spec['mandatory']))
                if what == 'mandatory':
                    if not spec['mandatory']:
                        return
                    attrs = [a for a in attrs if a != spec['mandatory'][k % len(spec['mandatory'])]]
                data = pd.DataFrame({a: values for a in attrs}, index=index)
                if what == 'linked':
                    if spec['links']:
                        return
                    data = LinkedDataFrame(data)
                elif k % 2 and spec['links']:
                    data = LinkedDataFrame(data)
                data = {'series': pd.Series(values, index=index), 'array': np.ones([n, len(attrs)]), 'none': None,
                        'dict': {a: values for a in attrs}}.get(what, data)
            ctx.refused(f'{self.step}: assigning data ({what}) to {kind} {name} of orientation {spec["orient"]}', Exception,
                        m[name].assign, data)
            self.bad_done += (f'{kind}: {what}',)
            return
        # Matrices and partial tables
        frame = pd.DataFrame([[(5 * i + 3 * j + k) % 7 / 8 for j in range(len(choices))] for i in range(len(units))],
                             index=units, columns=choices, dtype='f8')
        odd = ('nowhere',) * units.nlevels if units.nlevels > 1 else 'nowhere'
        odd_column = ('nowhere',) + ('.',) * (choices.nlevels - 1) if choices.nlevels > 1 else 'nowhere'
        if what == 'unknown row':
            extra = pd.DataFrame([[0.5] * len(choices)], columns=choices,
                                 index=pd.MultiIndex.from_tuples([odd], names=units.names) if units.nlevels > 1 else [odd])
            frame = pd.concat([frame.iloc[:len(units) - k % 2], extra])
        elif what == 'unknown column':
            extra = pd.DataFrame([[0.5]] * len(units), index=units,
                                 columns=pd.MultiIndex.from_tuples([odd_column]) if choices.nlevels > 1 else [odd_column])
            frame = pd.concat([frame.iloc[:, :len(choices) - k % 2], extra], axis=1)
        elif what == 'flat columns':
            if choices.nlevels == 1:
                return
            frame.columns = ['.'.join(p) for p in ref.tree]
        if kind == 'matrix':
            spec = ref.symbols[name][0]
            rows_ok, cols_ok = spec.get('reindex', [True, True])
            if what == 'no rows reindex':
                if rows_ok or len(units) < 2:
                    return
                frame = frame.iloc[::-1] if k % 2 else frame.iloc[1:]
            elif what == 'no columns reindex':
                if cols_ok:
                    return
                frame = frame.iloc[:, ::-1] if k % 2 else frame.iloc[:, 1:]
            data = frame.transpose() if spec['orient'] != (what == 'transposed') else frame
            data = {'series': frame.iloc[:, 0], 'array': frame.values, 'short array': frame.values[:-1],
                    'dict': {'a': 1}}.get(what, data)
            ctx.refused(f'{self.step}: assigning data ({what}) to matrix {name} of orientation {spec["orient"]}', Exception,
                        m[name].assign, data)
        else:
            kwargs = {'reindex_rows': True, 'reindex_columns': True}
            if what == 'rows':
                if len(units) < 2:
                    return
                frame = frame.iloc[::-1] if k % 2 else frame.iloc[1:]
                kwargs['reindex_rows'] = False
                if k % 3 == 0:
                    del kwargs['reindex_rows']  # The default
            elif what == 'columns':
                frame = frame.iloc[:, ::-1] if k % 2 else frame.iloc[:, 1:]
                kwargs['reindex_columns'] = False
            elif what == 'transposed':
                frame = frame.transpose()
            elif what == 'text':
                frame = frame.astype(str)
            ctx.refused(f'{self.step}: adding partial utilities ({what}, {kwargs})', Exception, m.add_partial_utilities,
                        frame, **kwargs)
        self.bad_done += (f'{kind}: {what}',)


def run(case, ctx):
    w = BadWorld(case, ctx)
    w.go()
    moved = False
    for _, op, *args in case['ops']:
        if op in ('assign', 'partial'):
            data = args[-1]
            if isinstance(data, dict) and 'rows' in data:
                r, c = data['rows'], data['cols']
                full = r == list(range(w.ref[0].n())) and c == list(range(len(w.ref[0].tree)))
                if not full:
                    moved = True
                    ctx.label(f'{op} of a subset or in another order')
    ctx.nontrivial = w.n_runs > 0 and (moved or bool(w.bad_done))
    for b in w.bad_done:
        ctx.label('refused ' + b)


PARTS = [
    Part('multinomial', lambda tier: cases(tier, False), run, 1500, 30000),
    Part('nested', lambda tier: cases(tier, True), run, 1500, 30000),
]
