"""Generated linked tables, and what their links mean, without using the code under test.

A schema is JSON: {'tables': [...], 'links': [...]}. A table has `n` rows, value columns `cols` [[name, kind, values, late]],
key columns `keys` [[name, kind, values]], an index {'names': [...], 'kinds': [...], 'values': [[...] per level]} and is a
LinkedDataFrame if `linked`. Link keys are stored as lists of one plain value per level, with None for missing ones.
"""
from __future__ import annotations

import datetime
import math

from hypothesis import strategies as st

VALUE_KINDS = ['i8', 'i8', 'i4', 'i2', 'i1', 'u1', 'u2', 'u4', 'u8', 'f8', 'f8', 'f4', 'f2', '?', 'text', 'textn', 'cat', 'catn', 'date', 'obj']
NUMERIC_KINDS = ['i8', 'i8', 'i4', 'i1', 'u1', 'f8', 'f8', 'f4', '?']
VALUE_NAMES = ['v', 'w', 'x1', 'area', 'sum', 'count', 'size', 'v 2', 'T', 'first']
TEXTS = ['a', 'ab', '', 'b c', 'Z', "it's", 'é', 'x    y', 'x y', 'wide text ' * 11, 'L,v', 'p)(', '#1']
DATES = ['2020-01-01', '2020-01-02', '1999-12-31T23:59:59', '2262-01-01', '1700-01-01']

FAMILIES = {
    'int': ([0, 1, 2, 3, 5, 7, 11, 100, 42, 6], ['i8', 'i8', 'i4', 'i2', 'u1', 'f8']),
    'sint': ([-1, 0, 1, -2, 2, -100, 50, 3, 7, 8], ['i8', 'i8', 'i4', 'i2', 'f8']),
    'big': ([2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2, -2 ** 53 - 1, -2 ** 53, 2 ** 62, 2 ** 62 + 1, 0, 1, 2], ['i8']),
    'float': ([0.5, 1.0, 1.5, -2.0, 0.0, 2.25, 1e300, -0.125, 3.0, 4.0], ['f8']),
    'str': (['a', 'b', 'A', 'aa', '', 'é', 'b ', '1', 'Z', 'c'], ['obj', 'obj', 'cat']),
    'bool': ([False, True], ['?']),
    'date': (['2020-01-01', '2020-01-02', '2020-02-01', '1999-12-31', '2262-01-01', '2021-05-05', '2021-05-06',
              '2021-05-07', '2021-05-08', '2021-05-09'], ['date']),
    'mixed': ([1, '1', 'a', 2, '2', 'b', 3, '3', 'c', 4], ['obj']),
}
NULLABLE = {'f8', 'obj', 'cat', 'date'}
_DTYPES = {'i8', 'i4', 'i2', 'i1', 'u1', 'u2', 'u4', 'u8', 'f8', 'f4', 'f2', '?'}


def values_of(kind):
    if kind == 'i8':
        return st.one_of(st.integers(-9, 9), st.sampled_from([2 ** 53 + 1, -2 ** 62 - 1]))
    if kind in ('i4', 'i2', 'i1'):
        return st.integers(-9, 9)
    if kind in ('u1', 'u2', 'u4'):
        return st.sampled_from([0, 1, 2, 3, 7, 255])
    if kind == 'u8':
        return st.sampled_from([0, 1, 2, 3, 2 ** 53 + 1, 2 ** 63 + 1])
    if kind in ('f8', 'f4', 'f2'):
        return st.one_of(st.integers(-40, 40).map(lambda k: k / 4), st.integers(-40, 40).map(lambda k: k / 4), st.none())
    if kind == '?':
        return st.booleans()
    if kind in ('text', 'cat'):
        return st.sampled_from(TEXTS)
    if kind in ('textn', 'catn'):
        return st.sampled_from(TEXTS + [None, None])
    if kind == 'date':
        return st.sampled_from(DATES + [None])
    if kind == 'obj':
        return st.sampled_from(['2001-01-01', '2002-02-02', '2003-03-03', None])
    raise KeyError(kind)


@st.composite
def column(draw, n, kinds=VALUE_KINDS):
    kind = draw(st.sampled_from(kinds))
    if n == 0 and kind == 'obj':
        kind = 'i8'
    values = draw(st.lists(values_of(kind), min_size=n, max_size=n))
    if n and kind == 'textn' and not any(v is not None for v in values):
        values[0] = 'ab'
    if n and kind == 'obj' and not any(v is not None for v in values):
        values[0] = '2001-01-01'
    return kind, values


def plain(kind, v):
    """The value of a cell as Python sees it (None for any kind of missing)"""
    if v is None:
        return None
    if kind == 'obj' and isinstance(v, str) and len(v) == 10 and v[4] == '-':
        return datetime.date.fromisoformat(v)
    if kind == 'date':
        import pandas as pd
        return pd.Timestamp(v)
    return v


def make_array(kind, values):
    """A NumPy array or Categorical of values, as they would be given to a DataFrame"""
    import numpy as np
    import pandas as pd
    if kind in _DTYPES:
        return np.array([math.nan if v is None else v for v in values], dtype=kind)
    if kind == 'date':
        return np.array(['NaT' if v is None else v for v in values], dtype='datetime64[ns]')
    out = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        out[i] = plain(kind, v)
    if kind in ('cat', 'catn'):
        return pd.Categorical(list(out), categories=sorted({v for v in out if v is not None}) + ['unused'])
    return out


DEFAULT_FILLS = {'i8': 0, 'i4': 0, 'i2': 0, 'i1': 0, 'u1': 0, 'u2': 0, 'u4': 0, 'u8': 0, 'f8': None, 'f4': None, 'f2': None, '?': False, 'text': '',
                 'textn': '', 'cat': None, 'catn': None, 'date': None, 'obj': None}


# ------------------------------------------------------------------------------------------------------------- drawing

def _rows_unique(draw, fams, n):
    sizes = [len(FAMILIES[f][0]) for f in fams]
    rows = draw(st.lists(st.tuples(*[st.integers(0, s - 1) for s in sizes]), min_size=n, max_size=n, unique=True))
    return [[FAMILIES[f][0][c] for f, c in zip(fams, row)] for row in rows]


def _row(draw, fams):
    return [draw(st.sampled_from(FAMILIES[f][0])) for f in fams]


# What a missing key could be mistaken for
LOOKALIKES = {'int': [-1, 0, 10], 'sint': [-1, 0, -9], 'float': [0.0, -1.0, -999.0], 'str': ['', 'nan', 'None', 'NaT', '<NA>'],
              'date': ['1970-01-01', '1677-09-22']}


def confuse(draw, fams, level, row, other, agg, other_is_target):
    """Possibly gives a row on the other side of the link a key which looks like the missing one"""
    rows, kinds = other
    if fams[level] not in LOOKALIKES or not rows or draw(st.booleans()):
        return
    value = draw(st.sampled_from(LOOKALIKES[fams[level]]))
    if kinds[level] == 'u1' and value < 0:
        return
    key = list(row)
    key[level] = value
    if None in key or key in rows:
        return
    first = 2 if agg and other_is_target else 0  # (The target of an aggregation must keep repeated keys)
    if len(rows) > first:
        rows[draw(st.integers(first, len(rows) - 1))] = key


@st.composite
def link_keys(draw, n_src, n_dst, agg, max_levels=3, force_miss=False):
    """The keys of both sides of a link, and how they are stored"""
    n_levels = draw(st.sampled_from([1, 1, 1, 2, 2, 3][:2 * max_levels]))
    fams = [draw(st.sampled_from(['int', 'int', 'sint', 'str', 'str', 'float', 'date', 'bool', 'big', 'mixed']))
            for _ in range(n_levels)]
    size = 1
    for f in fams:
        size *= len(FAMILIES[f][0])
    if size < max(n_src, n_dst) + 2:
        fams[0] = 'int'
    kinds_src = [draw(st.sampled_from(FAMILIES[f][1])) for f in fams]
    kinds_dst = [draw(st.sampled_from([k] * 3 + FAMILIES[f][1])) for f, k in zip(fams, kinds_src)]

    if agg:
        src = _rows_unique(draw, fams, n_src)
        few = draw(st.integers(2, 4))
        pool = [list(r) for r in src][:few] * 2 + [_row(draw, fams)]
        dst = [list(draw(st.sampled_from(pool))) for _ in range(n_dst)]
        dst[1] = list(dst[0])
    else:
        dst = _rows_unique(draw, fams, n_dst)
        pool = [list(r) for r in dst] * 2 + [_row(draw, fams)]
        src = [list(draw(st.sampled_from(pool))) for _ in range(n_src)]
        how = draw(st.sampled_from(['', '', '', '', 'same', 'reversed']))
        if how == 'same':  # The same keys in the same order, possibly
            src = [list(dst[i % len(dst)]) if dst else s for i, s in enumerate(src)]
        elif how == 'reversed':
            src = [list(dst[-1 - i % len(dst)]) if dst else s for i, s in enumerate(src)]

    if force_miss and not agg and src:
        for _ in range(3):
            row = _row(draw, fams)
            if row not in dst:
                src[draw(st.integers(0, n_src - 1))] = row
                break
    side = draw(st.sampled_from(['', '', 'src', 'dst']))
    if side:
        kinds, rows = (kinds_src, src) if side == 'src' else (kinds_dst, dst)
        levels = [i for i in range(n_levels) if kinds[i] in NULLABLE and fams[i] != 'mixed']
        if levels and rows:
            level = draw(st.sampled_from(levels))
            first = 2 if agg and side == 'dst' else 0
            most = 1 if agg == (side == 'src') else len(rows)
            for i in draw(st.lists(st.integers(first, len(rows) - 1), max_size=min(most, 4), unique=True)) \
                    if len(rows) > first else []:
                rows[i] = list(rows[i])
                rows[i][level] = None
                confuse(draw, fams, level, rows[i], (dst, kinds_dst) if side == 'src' else (src, kinds_src), agg,
                        side == 'src')
    return {'fams': fams, 'src_keys': src, 'dst_keys': dst, 'src_kinds': kinds_src, 'dst_kinds': kinds_dst}


LINK_NAMES = ['L', 'hh', 'zone', 'my link', 'p_1', 'o', 'd', 'link-2']


@st.composite
def schemas(draw, tier, topology, max_n=6, kinds=VALUE_KINDS, max_cols=3, allow_empty=True, late=True, root_min=0,
            plain_targets=True, max_levels=3, link_names=LINK_NAMES, value_names=VALUE_NAMES, index_kinds=None,
            key_named_links=True, force_miss=False, free_root=False, root_rows=None):
    """`topology` is a list of [src table, dst table, aggregated] with table 0 as the root"""
    n_tables = 1 + max(max(s, d) for s, d, _ in topology)
    sources = {s for s, _, _ in topology}
    agg_targets = {d for _, d, a in topology if a}
    tables = []
    for t in range(n_tables):
        low = 2 if t in agg_targets else (root_min if t == 0 or not allow_empty else draw(st.sampled_from([0, 1, 1, 1, 1])))
        n = draw(st.integers(max(low, draw(st.sampled_from([low, 3, 4]))), max(low, max_n)))
        if t == 0 and root_rows is not None:
            n = root_rows
        linked = t in sources or (not plain_targets) or draw(st.booleans())
        names = draw(st.lists(st.sampled_from(value_names), min_size=1, max_size=max_cols, unique=True))
        cols = []
        for name in names:
            kind, values = draw(column(n, kinds))
            cols.append([name, kind, values, bool(late and t and draw(st.sampled_from([0, 0, 1])))])
        tables.append({'n': n, 'linked': linked, 'cols': cols, 'keys': [], 'index': None})

    links = []
    used = {}
    for no, (s, d, agg) in enumerate(topology):
        agg = agg and tables[d]['n'] > 1
        k = draw(link_keys(tables[s]['n'], tables[d]['n'], bool(agg), max_levels, force_miss))
        n_levels = len(k['fams'])
        link = {'src': s, 'dst': d, 'agg': bool(agg), 'src_keys': k['src_keys'], 'dst_keys': k['dst_keys'],
                'pre': draw(st.booleans())}
        stores = {}
        for side, t in (('src', s), ('dst', d)):
            store = draw(st.sampled_from(['cols', 'cols', 'index', 'levels']))
            table = tables[t]
            kinds_ = k[side + '_kinds']
            rows = k[side + '_keys']
            if store != 'cols' and (table['index'] is not None or (free_root and t == 0)):
                store = 'cols'
            values = [[r[i] for r in rows] for i in range(n_levels)]
            if store == 'cols':
                shared = side == 'dst' and stores['src'][0] == 'cols' and s != d and draw(st.booleans())
                if shared:
                    names = list(stores['src'][1])
                else:
                    names = [draw(st.sampled_from([f'k{no}_{side}_{i}', f'k{no} {side} {i}', 1000 * no + 10 * i + (side == 'dst')]))
                             for i in range(n_levels)]
                table['keys'] += [[name, kind, v] for name, kind, v in zip(names, kinds_, values)]
                stores[side] = ['cols', names]
            else:
                named = draw(st.sampled_from([True, True, False]))
                names = [f'i{no}_{i}' if named else None for i in range(n_levels)]
                order = list(range(n_levels))
                index = {'names': names, 'kinds': list(kinds_), 'values': values}
                pos = list(range(n_levels))
                if store == 'levels':
                    if draw(st.booleans()):
                        at = draw(st.integers(0, n_levels))
                        index['names'].insert(at, 'extra' if named else None)
                        index['kinds'].insert(at, 'i8')
                        index['values'].insert(at, draw(st.lists(st.integers(0, 3), min_size=table['n'], max_size=table['n'])))
                        pos = [p + (p >= at) for p in pos]
                    total = len(index['names'])
                    refs = [index['names'][p] if named and draw(st.booleans()) else draw(st.sampled_from([p, p, p - total]))
                            for p in pos]
                    stores[side] = ['levels', refs]
                else:
                    stores[side] = ['index', None]
                table['index'] = index
        link['self'], link['other'] = stores['src'], stores['dst']
        names_used = used.setdefault(s, set())
        name = draw(st.sampled_from([x for x in link_names if x not in names_used]))
        cols_ = [x for x in (link['self'][1] or []) if isinstance(x, str) and x not in names_used]
        if key_named_links and link['self'][0] == 'cols' and cols_ and draw(st.sampled_from([0, 0, 0, 0, 1])):
            name = cols_[0]
        names_used.add(name)
        link['name'] = name
        link['form'] = draw(st.integers(0, 7))
        links.append(link)

    for table in tables:
        n = table['n']
        if table['index'] is None:
            kind = draw(st.sampled_from(index_kinds or ['range', 'range', 'int', 'str', 'dup', 'multi']))
            if kind == 'range':
                table['index'] = None
            elif kind == 'int':
                table['index'] = {'names': [draw(st.sampled_from([None, 'idx']))], 'kinds': ['i8'], 'values': [
                    draw(st.lists(st.integers(-20, 20), min_size=n, max_size=n, unique=True))]}
            elif kind == 'str':
                table['index'] = {'names': [None], 'kinds': ['obj'], 'values': [
                    draw(st.permutations(['r%d' % i for i in range(n)]))]}
            elif kind == 'dup':
                table['index'] = {'names': [None], 'kinds': ['i8'], 'values': [
                    draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))]}
            else:
                table['index'] = {'names': ['m0', 'm1'], 'kinds': ['i8', 'obj'], 'values': [
                    [i // 2 for i in range(n)], ['ab'[i % 2] for i in range(n)]]}
    return {'tables': tables, 'links': links}


# ------------------------------------------------------------------------------------------------------------ building

def make_index(table):
    import pandas as pd
    index = table['index']
    if index is None:
        return pd.RangeIndex(table['n'])
    arrays = [make_array(k, v) for k, v in zip(index['kinds'], index['values'])]
    if len(arrays) == 1:
        return pd.Index(arrays[0], name=index['names'][0])
    return pd.MultiIndex.from_arrays(arrays, names=index['names'])


def make_table(table, late=True, linked=None, index=None):
    """`late` columns are left out unless asked for"""
    import pandas as pd
    from cheval import LinkedDataFrame
    data = {name: pd.Series(make_array(kind, values)) for name, kind, values in table['keys']}
    data.update({name: pd.Series(make_array(kind, values)) for name, kind, values, is_late in table['cols']
                 if late or not is_late})
    frame = pd.DataFrame(data, index=pd.RangeIndex(table['n']), columns=list(data))
    frame.index = make_index(table) if index is None else index
    return LinkedDataFrame(frame) if (table['linked'] if linked is None else linked) else frame


def add_late(frame, table):
    for name, kind, values, is_late in table['cols']:
        if is_late:
            frame[name] = make_array(kind, values)


def link_kwargs(link, form=None):
    """Different but equivalent ways of specifying the link"""
    form = link['form'] if form is None else form
    kwargs = {}
    (s_kind, s_labels), (o_kind, o_labels) = link['self'], link['other']

    def shape(labels, bit):
        labels = list(labels)
        return labels[0] if len(labels) == 1 and bit else labels
    if s_kind == o_kind and s_kind != 'index' and s_labels == o_labels and form & 4:
        kwargs['on' if s_kind == 'cols' else 'levels'] = shape(s_labels, form & 1)
    else:
        if s_kind != 'index':
            kwargs['on_self' if s_kind == 'cols' else 'self_levels'] = shape(s_labels, form & 1)
        if o_kind != 'index':
            kwargs['on_other' if o_kind == 'cols' else 'other_levels'] = shape(o_labels, form & 2)
    return kwargs


def build(schema, ctx=None, late=True, root_index=None):
    """All frames with all links"""
    frames = [make_table(t, late=not late, index=None if i else root_index) for i, t in enumerate(schema['tables'])]
    for link in schema['links']:
        establish(schema, frames, link, ctx)
    if late:
        for frame, table in zip(frames, schema['tables']):
            add_late(frame, table)
    return frames


def establish(schema, frames, link, ctx=None):
    args = (frames[link['dst']], link['name'])
    kwargs = dict(link_kwargs(link), precompute=link['pre'])
    if ctx is None:
        return frames[link['src']].link_to(*args, **kwargs)
    got = ctx.sut(f'link_to({link["name"]!r}, {kwargs})', frames[link['src']].link_to, *args, **kwargs)
    from cheval import LinkAggregationRequired
    expected = LinkAggregationRequired.YES if link['agg'] else LinkAggregationRequired.NO
    ctx.require(got is expected, lambda: f'link_to({link["name"]!r}, {kwargs}) returned {got}')
    return got


# ------------------------------------------------------------------------------------------------------------- meaning

def key_of(row):
    """Something hashable which is equal for equal keys only, or None for keys with missing parts"""
    if any(v is None for v in row):
        return None
    return tuple((isinstance(v, str), isinstance(v, bool), v) for v in row)


def matches(link):
    """For every row of the source, the positions of the matching rows in the target"""
    where = {}
    for pos, row in enumerate(link['dst_keys']):
        k = key_of(row)
        if k is not None:
            where.setdefault(k, []).append(pos)
    return [where.get(key_of(row), []) if key_of(row) is not None else [] for row in link['src_keys']]


def follow(schema, chain):
    """For every row of the source of the first link, the position in the target of the last one, or None"""
    position = list(range(schema['tables'][schema['links'][chain[0]]['src']]['n'])) if chain else None
    for no in chain:
        m = matches(schema['links'][no])
        position = [None if p is None or not m[p] else m[p][0] for p in position]
    return position


def table_column(table, name):
    for cname, kind, values, _ in table['cols']:
        if cname == name:
            return kind, [plain(kind, v) for v in values]
    for cname, kind, values in table['keys']:
        if cname == name:
            return kind, [plain(kind, v) for v in values]
    raise KeyError(name)


def access(node, name, how):
    """Attribute or item access"""
    if how and isinstance(name, str) and name.isidentifier() and not hasattr(type(node), name):
        return getattr(node, name)
    return node[name]


def dtype_of(kind, values):
    return make_array(kind, []).dtype if kind not in ('cat', 'catn') else make_array(kind, values).dtype


def put_in_order(frame, order):
    """Reorders the rows of a frame in place"""
    rank = [0] * len(order)
    for i, k in enumerate(order):
        rank[k] = i
    frame['order_'] = rank
    frame.sort_values('order_', inplace=True)
    del frame['order_']


def reorder(case, t, order):
    """Does the same to what is known about the frame"""
    table = case['tables'][t]

    def take(values):
        return [values[k] for k in order]
    for col in table['cols'] + table['keys']:
        col[2] = take(col[2])
    if table['index'] is not None:
        table['index']['values'] = [take(v) for v in table['index']['values']]
    for link in case['links']:
        if link['src'] == t:
            link['src_keys'] = take(link['src_keys'])
        if link['dst'] == t:
            link['dst_keys'] = take(link['dst_keys'])
