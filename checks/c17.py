"""C17: missing links are filled by the most specific fill value in force"""
import contextlib
import math

from hypothesis import strategies as st

from harness import frames
from harness.core import in_child, require_list
from harness.part import Part

KINDS = ['i4', 'i8', 'i2', 'i1', 'u1', 'u2', 'u4', 'u8', 'f8', 'f4', 'f2', '?', 'text', 'textn', 'cat', 'date', 'obj']
NAME_OF = {'i4': 'INT_NAME', 'i8': 'INT_NAME', 'i1': 'INT_NAME', 'i2': 'INT_NAME', 'u1': 'UINT_NAME',
           'u2': 'UINT_NAME', 'u4': 'UINT_NAME', 'u8': 'UINT_NAME', 'f2': 'FLOAT_NAME', 'f8': 'FLOAT_NAME', 'f4': 'FLOAT_NAME',
           '?': 'BOOL_NAME', 'text': 'TEXT_NAME', 'textn': 'TEXT_NAME', 'cat': 'CAT_NAME', 'date': 'TIME_NAME',
           'obj': 'OBJ_NAME'}
NAMES = sorted(set(NAME_OF.values()))
DOCUMENTED = {'INT_NAME': 0, 'UINT_NAME': 0, 'FLOAT_NAME': None, 'BOOL_NAME': False, 'TEXT_NAME': '', 'CAT_NAME': None,
              'TIME_NAME': None, 'OBJ_NAME': None}


def fills(name):
    if name == 'INT_NAME':
        return st.sampled_from([-1, 1, 99, 0, 300, -70000, 2.5, None])
    if name == 'UINT_NAME':
        return st.sampled_from([1, 9, 0, 255, 256, -1, 0.5])
    if name == 'FLOAT_NAME':
        return st.sampled_from([-1.0, 0.0, 0.5, 9, None, 1e4])
    if name == 'BOOL_NAME':
        return st.sampled_from([True, False])
    if name in ('TEXT_NAME', 'OBJ_NAME'):
        return st.sampled_from(['n/a', '', 'x', None])
    if name == 'CAT_NAME':
        return st.sampled_from(['unused', None])
    return st.sampled_from(['2000-02-29', '1980-01-01', None])


def decode(name, v):
    import numpy as np
    if name == 'TIME_NAME':
        return np.datetime64('nat' if v is None else v)
    if v is None and name in ('INT_NAME', 'UINT_NAME', 'FLOAT_NAME', 'CAT_NAME'):
        return math.nan
    return v


def plain(name, v):
    if name == 'TIME_NAME' and v is not None:
        import pandas as pd
        return pd.Timestamp(v)
    return v


@st.composite
def some_fills(draw, exclude=(), present=()):
    names = [n for n in NAMES + list(present) * 4 if n not in exclude]
    chosen = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True)) if names else []
    return [[n, draw(fills(n))] for n in chosen]


@st.composite
def cases(draw, tier):
    n_targets = draw(st.integers(1, 3))
    topology = [[0, t, False] for t in range(1, n_targets + 1)]
    if n_targets > 1:
        topology.append([1, 2, False])
    schema = draw(frames.schemas(tier, topology, max_n=5, kinds=KINDS, late=False, max_cols=4, max_levels=1, root_min=3, force_miss=True,
                                 key_named_links=False, value_names=['v', 'w', 'x1', 'area', 'b2', 'text', 'c']))
    # Small values only, as an integer column has to turn into floats if its fill value is one
    for table in schema['tables']:
        for col in table['cols']:
            if col[1] in ('i8', 'u8'):
                col[2] = [v % 1000 for v in col[2]]
    to_make = list(range(1, n_targets + 1))
    columns = {t: [[c[0], c[1]] for c in schema['tables'][t]['cols']] for t in range(n_targets + 1)}

    present = [NAME_OF[c[1]] for t in schema['tables'][1:] for c in t['cols']]

    def body(depth, inside):
        """`inside` is what is set temporarily at this point: {(frame or None): names}"""
        ops = []
        for _ in range(draw(st.integers(1, 5 if depth == 0 else 3))):
            made = [t for t in range(1, n_targets + 1) if t not in to_make]
            linked = [0] + [t for t in made if schema['tables'][t]['linked']]
            k = draw(st.integers(0, 11))
            if k <= 2 and to_make and depth < 2:
                ops.append(['make', to_make.pop(0)])
            elif k <= 4:
                who = draw(st.sampled_from([None, None] + linked))
                f = draw(some_fills(inside.get(who, ()), present))
                if f:
                    ops.append(['set', who, f])
            elif k == 5:
                who = draw(st.sampled_from([None] + linked))
                if not inside.get(who):
                    ops.append(['reset', who])
            elif k <= 7 and linked:
                t = draw(st.sampled_from(linked))
                name, kind = draw(st.sampled_from(columns[t]))
                ops.append(['column', t, name, NAME_OF[kind], draw(fills(NAME_OF[kind]))])
            elif k == 8 and linked:
                ops.append(['bad column', draw(st.sampled_from(linked)), 'nosuch', 5])
            elif k == 9:
                ops.append(['bad temp', draw(st.sampled_from([None] + linked)), draw(some_fills())])
            elif depth < 3:
                who = draw(st.sampled_from([None, None] + linked))
                f = draw(some_fills((), present))
                now = dict(inside)
                now[who] = set(now.get(who, ())) | {n for n, _ in f}
                ops.append(['with', who, f, body(depth + 1, now), draw(st.booleans())])
            if draw(st.booleans()):
                ops.append(['look'])
        ops.append(['look'])
        return ops
    ops = body(0, {})
    if to_make and len(to_make) == n_targets:
        ops = [['make', to_make.pop(0)]] + ops
    ops += [['make', t] for t in to_make] + [['look']]
    schema['ops'] = ops
    schema['reset'] = draw(st.sampled_from([False, False, True]))
    return schema


class Boom(Exception):
    pass


def run(case, ctx):
    """Defaults are kept by the process, so every case gets a new one"""
    import cheval  # noqa
    in_child(run_here, case, ctx)


def run_here(case, ctx):
    from cheval import LinkedDataFrame
    if case['reset']:
        LinkedDataFrame.reset_fill_defaults()
    try:
        History(case, ctx).go(case['ops'])
        LinkedDataFrame.reset_fill_defaults()
        h = History(case, ctx)  # New frames, after resetting
        h.go([['make', t] for t in range(1, len(case['tables']))] + [['look']])
    finally:
        LinkedDataFrame.reset_fill_defaults()


class History:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.class_fills = dict(DOCUMENTED)
        self.instance = {0: dict(DOCUMENTED)}
        self.columns = {}
        self.frames = {0: frames.make_table(case['tables'][0], linked=True)}
        self.linked = []
        self.text = []

    def go(self, ops):
        for op in ops:
            getattr(self, op[0].replace(' ', '_'))(*op[1:])

    def who(self, t):
        from cheval import LinkedDataFrame
        return LinkedDataFrame if t is None else self.frames[t]

    def fills_of(self, t):
        return self.class_fills if t is None else self.instance[t]

    def make(self, t):
        self.text.append(f'make T{t}')
        self.frames[t] = frames.make_table(self.case['tables'][t])
        self.instance[t] = dict(self.class_fills)
        for no, link in enumerate(self.case['links']):
            if no not in self.linked and link['src'] in self.frames and link['dst'] in self.frames:
                frames.establish(self.case, self.frames, link, self.ctx)
                self.linked.append(no)

    def set(self, t, items):
        self.text.append(f'set {"class" if t is None else f"T{t}"} {items}')
        self.ctx.sut('set_fill_defaults()', self.who(t).set_fill_defaults, **{n: decode(n, v) for n, v in items})
        self.fills_of(t).update(dict(items))
        self.ctx.label('set class' if t is None else 'set instance')

    def reset(self, t):
        self.text.append(f'reset {t}')
        self.ctx.sut('reset_fill_defaults()', self.who(t).reset_fill_defaults)
        self.fills_of(t).update(DOCUMENTED)
        self.ctx.label('reset')

    def column(self, t, name, kind_name, value):
        self.text.append(f'column T{t}.{name} = {value}')
        self.ctx.sut('set_column_fill()', self.frames[t].set_column_fill, name, decode(kind_name, value))
        self.columns[t, name] = value
        self.ctx.label('column fill')

    def bad_column(self, t, name, value):
        self.ctx.refused('set_column_fill() of an unknown column', KeyError, self.frames[t].set_column_fill, name, value)

    def bad_temp(self, t, items):
        def go():
            with self.who(t).temporary_fill_defaults(**{n: decode(n, v) for n, v in items}, NO_SUCH_NAME=1):
                pass
        self.ctx.refused('temporary_fill_defaults() of an unknown type', Exception, go)

    def __getattr__(self, name):
        if name == 'with':
            return self.block
        raise AttributeError(name)

    def block(self, t, items, body, raises):
        fills_ = self.fills_of(t)
        before = {n: fills_[n] for n, _ in items}
        self.text.append(f'with {"class" if t is None else f"T{t}"} {items}')
        self.ctx.label('temporary')
        entered = False
        what = 'temporary_fill_defaults()'
        manager = self.ctx.sut(what, self.who(t).temporary_fill_defaults, **{n: decode(n, v) for n, v in items})
        self.ctx.require(hasattr(manager, '__enter__') and hasattr(manager, '__exit__'), f'{what} is no context manager')
        try:
            with manager:
                entered = True
                fills_.update(dict(items))
                self.look()
                self.go(body)
                if raises:
                    raise Boom()
        except Boom:
            if not raises:
                raise
        else:
            self.ctx.require(not raises, 'temporary_fill_defaults() swallowed an exception')
        self.ctx.require(entered, 'temporary_fill_defaults() did not run its block')
        fills_.update(before)
        self.text.append('end' + (' by an exception' if raises else ''))
        self.look()

    def look(self):
        ctx, case = self.ctx, self.case
        paths = [[no] for no in self.linked if case['links'][no]['src'] == 0]
        paths += [p + [no] for p in paths for no in self.linked if case['links'][no]['src'] == case['links'][p[-1]]['dst']]
        for path in paths:
            t = case['links'][path[-1]]['dst']
            table = case['tables'][t]
            position = frames.follow(case, path)
            for name, kind, _, _ in table['cols']:
                kind_name = NAME_OF[kind]
                if kind == 'obj' and table['n'] == 0:
                    continue
                if (t, name) in self.columns:
                    fill = self.columns[t, name]
                elif table['linked']:
                    fill = self.instance[t][kind_name]
                else:
                    fill = self.class_fills[kind_name]
                values = frames.table_column(table, name)[1]

                def go():
                    node = self.frames[0]
                    for no in path:
                        node = node[case['links'][no]['name']]
                    return list(node[name].array)
                what = 'T0' + ''.join('.' + case['links'][no]['name'] for no in path) + '.' + name
                got = ctx.sut(what, go)
                require_list(ctx, f'{what} (of kind {kind}) after {self.text[-12:]}', got,
                             [plain(kind_name, fill) if p is None else values[p] for p in position])
                ctx.label('lookups')
                if None in position and fill != DOCUMENTED[kind_name]:
                    ctx.label('filled by ' + ('a column' if (t, name) in self.columns else 'an instance' if table['linked']
                                              else 'the class'))
                    ctx.label_if(len(path) > 1, 'filled at the end of a chain')
                    ctx.nontrivial = True


PARTS = [Part('histories', cases, run, 2800, 40000)]
