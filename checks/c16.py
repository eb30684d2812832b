"""C16: links stay attached to their rows when a frame is sliced or reordered"""
import math

from hypothesis import strategies as st

from harness import frames, large
from harness.core import HarnessError, require_list, same_list
from harness.part import Part

# What an operation can do to the links. KEEP: the links must survive if their keys are still there. INDEX: as before, but
# links whose keys come from the index may go. LOSE: links may go, but must not be wrong.
KEEP, INDEX, LOSE = 'keep', 'index', 'lose'


def unique(df):
    return df.index.is_unique


def mask_of(df, a):
    return [bool((a * (i + 3) * 2654435761 >> 7) & 1) for i in range(len(df))]


def positions_of(df, a, b, repeats=True):
    import random
    r = random.Random(a * 1009 + b)
    n = len(df)
    if n == 0:
        return []
    if repeats:
        return [r.randrange(n) for _ in range(r.choice([0, 1, n // 2, n, n + 1, n + 2]))]
    return r.sample(range(n), r.choice([0, n // 2, n, n, n]))


def sort_cols(df, a):
    # Columns which can be sorted, 'rid' breaks the ties
    options = [c for c in df.columns if c != 'rid' and not isinstance(c, int) and len(df) and
               not any(isinstance(v, (str, type(None))) for v in list(df[c].array)) and df[c].dtype.kind != 'O']
    return [options[a % len(options)]] if options else ['rid']


def some_columns(df, a, keep='rid'):
    chosen = [c for i, c in enumerate(df.columns) if (a >> i & 1) or c == keep]
    return chosen if a & 1 else chosen[::-1]


def op_mask(df, a, b):
    import numpy as np
    import pandas as pd
    m = mask_of(df, a)
    if b % 6 == 0:
        return df[m] if m else df[np.array(m, dtype=bool)]
    if b % 6 == 1:
        return df[np.array(m, dtype=bool)]
    if b % 6 == 2:
        return df.loc[np.array(m, dtype=bool)]
    if b % 6 == 3:
        return df[pd.Series(m, index=df.index, dtype=bool)]
    if b % 6 == 4:
        return df.loc[np.array(m, dtype=bool), :]
    return df.iloc[np.array(m, dtype=bool)]


def op_loc_labels(df, a, b):
    pos = positions_of(df, a, b, repeats=unique(df))
    labels = [df.index[i] for i in pos]
    if not labels or (not unique(df) and df.index.nlevels > 1):
        return df
    if any(_missing(x) for x in (labels if df.index.nlevels == 1 else [v for t in labels for v in t])):
        return df
    return df.loc[labels] if b & 1 else df.loc[df.index[pos]]


def _missing(x):
    try:
        return x is None or x != x
    except Exception:
        return False


def op_loc_slice(df, a, b):
    if not unique(df) or len(df) == 0 or df.index.nlevels > 1 or df.index.hasnans:
        return df
    i, j = sorted([a % len(df), b % len(df)])
    return df.loc[df.index[i]:df.index[j]]


def op_iloc_list(df, a, b):
    pos = positions_of(df, a, b)
    if a & 1:
        pos = [p if p % 2 else p - len(df) for p in pos]
    return df.iloc[pos] if b & 1 else df.take(pos)


def op_slice(df, a, b):
    n = len(df)
    lo, hi = a % (n + 2), b % (n + 2)
    k = (a + b) % 7
    if k == 0:
        return df.iloc[lo:hi]
    if k == 1:
        return df.iloc[::-1]
    if k == 2:
        return df.iloc[::2]
    if k == 3:
        return df[lo:hi] if df.index.inferred_type not in ('floating',) else df.iloc[lo:hi]
    if k == 4:
        return df.iloc[-lo:]
    if k == 5:
        return df.iloc[hi:lo:-1]
    return df.iloc[1:-1]


def op_head(df, a, b):
    k = b % (len(df) + 2)
    return [df.head, df.tail][a & 1](k if a & 2 else -k)


def op_sort_values(df, a, b):
    by = sort_cols(df, a) + ['rid']
    return df.sort_values(by=by, ascending=bool(b & 1), na_position='last' if b & 2 else 'first', kind='mergesort')


def op_sort_values_inplace(df, a, b):
    df.sort_values(by=sort_cols(df, a) + ['rid'], ascending=bool(b & 1), kind='mergesort', inplace=True)
    return df


def op_sort_ignore(df, a, b):
    if b & 4:
        df.sort_values(by=['rid'], ascending=bool(b & 1), ignore_index=True, inplace=True)
        return df
    return df.sort_values(by=sort_cols(df, a) + ['rid'], ascending=bool(b & 1), ignore_index=True)


def sortable_index(df):
    return not any(df.index.get_level_values(i).hasnans or df.index.get_level_values(i).inferred_type.startswith('mixed')
                   for i in range(df.index.nlevels))


def op_sort_index(df, a, b):
    if not sortable_index(df):
        return df
    kwargs = {'level': a % df.index.nlevels} if b & 2 and df.index.nlevels > 1 else {}
    return df.sort_index(ascending=bool(b & 1), kind='mergesort', **kwargs)


def op_sort_index_inplace(df, a, b):
    if sortable_index(df):
        df.sort_index(ascending=bool(b & 1), kind='mergesort', inplace=True)
    return df


def op_sample(df, a, b):
    if len(df) == 0:
        return df
    if b & 1:
        return df.sample(frac=1, random_state=a)
    return df.sample(n=1 + b % len(df), random_state=a, replace=bool(a & 1))


def op_drop_rows(df, a, b, inplace=False):
    pos = positions_of(df, a, b, repeats=False)[:1 + a % 3]
    labels = df.index[pos]
    if len(pos) == 0 or any(labels.get_level_values(i).hasnans for i in range(labels.nlevels)) or \
            (df.index.nlevels > 1 and not unique(df)):
        return df
    if inplace:
        df.drop(labels.unique(), inplace=True)
        return df
    return df.drop(index=labels.unique()) if b & 1 else df.drop(labels.unique())


def op_drop_rows_inplace(df, a, b):
    return op_drop_rows(df, a, b, True)


def op_dedupe(df, a, b):
    subset = [c for c in sort_cols(df, a)]
    if b & 4:
        df.drop_duplicates(subset=subset, keep='first', inplace=True)
        return df
    return df.drop_duplicates(subset=subset, keep=['first', 'last', False][b % 3])


def op_dropna(df, a, b):
    subset = sort_cols(df, a)
    if b & 1:
        df.dropna(subset=subset, inplace=True)
        return df
    return df.dropna(subset=subset)


def op_query(df, a, b):
    if b & 1:
        df.query(f'rid % 3 != {a % 3}', inplace=True)
        return df
    return df.query(f'rid >= {a % 3}')


def op_group(df, a, b):
    by = ['rid'] if b & 1 else sort_cols(df, a)
    grouped = df.groupby(by[0] if b & 2 else (df['rid'] % 2).to_numpy())
    groups = list(grouped)
    if not groups:
        return df
    key, group = groups[a % len(groups)]
    return grouped.get_group(key) if b & 4 else group


def op_group_head(df, a, b):
    grouped = df.groupby((df['rid'] % 2).to_numpy())
    return [grouped.head, grouped.tail][b & 1](1 + a % 3)


def op_group_filter(df, a, b):
    return df.groupby((df['rid'] % 3).to_numpy()).filter(lambda g: len(g) > a % 2)


def op_group_reduce(df, a, b):
    if len(df) == 0 or any(str(d) == 'category' or d.kind == 'M' for d in df.dtypes) or \
            any(v is None or v != v for c in df.columns for v in list(df[c].array)):
        return df
    # (Without missing values, all columns come from the first or last row of a group)
    by = [c for c in df.columns if c != 'rid'][:1] if b & 1 else ['rid']
    if not by or any(isinstance(v, str) and isinstance(w, int) for v in df[by[0]] for w in df[by[0]]):
        return df
    if b & 2:
        order = by + [c for c in df.columns if c not in by]
        df = df[order]
    grouped = df.groupby(by[0], as_index=False, sort=bool(b & 4))
    return [grouped.first, grouped.last, lambda: grouped.head(1), lambda: grouped.tail(1)][a % 4]()


def op_sort_all(df, a, b):
    """Sorts in place or not, numbering the rows again"""
    by = [c for c in sort_cols(df, a) if b & 4] + ['rid']
    kwargs = {'by': by, 'ascending': bool(b & 1), 'ignore_index': True, 'kind': 'mergesort'}
    if b & 2:
        df.sort_values(inplace=True, **kwargs)
        return df
    return df.sort_values(**kwargs)


def op_copy(df, a, b):
    import copy
    return [lambda: df.copy(), lambda: df.copy(deep=True), lambda: copy.copy(df), lambda: copy.deepcopy(df)][b % 4]()


def op_columns(df, a, b):
    cols = some_columns(df, a)
    k = b % 5
    if k == 0:
        return df[cols]
    if k == 1:
        return df.loc[:, cols]
    if k == 2:
        return df.drop(columns=[c for c in df.columns if c not in cols])
    if k == 3:
        return df.filter(items=cols)
    return df.reindex(columns=cols)


def op_rows_and_columns(df, a, b):
    import numpy as np
    cols = some_columns(df, b)
    if a & 1:
        return df.loc[np.array(mask_of(df, a), dtype=bool), cols]
    return df.iloc[positions_of(df, a, b), [list(df.columns).index(c) for c in cols]]


def op_reset_index(df, a, b):
    if b & 1:
        df.reset_index(drop=True, inplace=True)
        return df
    return df.reset_index(drop=True)


def op_add_column(df, a, b):
    name = f'new{a}'
    if name in df.columns:
        return df
    if b & 1:
        return df.assign(**{name: df['rid'] * 2})
    df = df.copy(deep=True)
    df[name] = list(range(len(df)))
    return df


def op_rename(df, a, b):
    names = [c for c in df.columns if isinstance(c, str) and c.startswith('v_')]
    if not names:
        return df
    name = names[a % len(names)]
    if b & 1:
        df.rename(columns={name: name + 'r'}, inplace=True)
        return df
    return df.rename(columns={name: name + 'r'})


def op_values(df, a, b):
    """Things which change values but no rows"""
    numbers = [c for c in df.columns if isinstance(c, str) and c.startswith('v_') and df[c].dtype.kind in 'if']
    if b % 3 == 0:
        return df.fillna({c: 3 for c in numbers}) if numbers else df
    if b % 3 == 1:
        return df.infer_objects()
    return df.replace({c: {0: 1} for c in numbers}) if numbers else df


def op_reindex(df, a, b):
    if not unique(df) or any(df.index.get_level_values(i).hasnans for i in range(df.index.nlevels)):
        return df
    labels = df.index[positions_of(df, a, b, repeats=False)]
    return df.reindex(labels) if b & 1 else df.reindex(index=labels)


def op_nlargest(df, a, b):
    return [df.nlargest, df.nsmallest][b & 1](1 + a % 4, 'rid') if unique(df) else df


def op_compute(df, a, b):
    if hasattr(df, 'compute_indexers'):
        df.compute_indexers(refresh=bool(b & 1))
    return df


def op_isin(df, a, b):
    return df[df['rid'].isin([a % 5, b % 5, 1])]


def op_truncate(df, a, b):
    if not df.index.is_monotonic_increasing or df.index.nlevels > 1 or len(df) == 0 or not unique(df):
        return df
    i, j = sorted([a % len(df), b % len(df)])
    return df.truncate(before=df.index[i], after=df.index[j])


def op_concat(df, a, b):
    import pandas as pd
    return pd.concat([df.iloc[a % (len(df) + 1):], df.iloc[:a % (len(df) + 1)]])


def op_merge(df, a, b):
    import pandas as pd
    right = pd.DataFrame({'rid': [0, 1, 2, 3, 5], 'm%d' % a: [1, 2, 3, 4, 5]})
    if ('m%d' % a) in df.columns:
        return df
    return df.merge(right, on='rid', how='inner' if b & 1 else 'left')


def op_set_index(df, a, b):
    if b & 1:
        df.set_index('rid', drop=False, inplace=True)
        df.index.name = None
        return df
    df = df.set_index(df['rid'].to_numpy() * 7)
    return df


def op_relabel(df, a, b):
    n = len(df)
    k = b % 6
    labels = [(i * 3 + a) % (n + 2) for i in range(n)]
    if k == 0:
        return df.set_axis(labels, axis=0)
    if k == 1:
        df.index = labels
        return df
    if k == 2 and df.index.nlevels == 1:
        return df.rename(index=lambda x: x * 2 if isinstance(x, (bool, int, float)) and x == x else x)
    if k == 3 and df.index.nlevels == 1:
        return df.rename_axis(f'ax{a}')
    if k == 4 and df.index.nlevels > 1:
        return df.swaplevel(0, 1)
    if k == 5 and df.index.nlevels > 1:
        return df.droplevel(0)
    return df


def op_drop_column(df, a, b):
    names = [c for c in df.columns if isinstance(c, str) and c.startswith('v_')]
    if not names:
        return df
    name = names[a % len(names)]
    return df.drop(columns=[name])


OPS = {
    'mask': (op_mask, KEEP), 'loc labels': (op_loc_labels, KEEP), 'loc slice': (op_loc_slice, KEEP),
    'iloc': (op_iloc_list, KEEP), 'slice': (op_slice, KEEP), 'head': (op_head, KEEP), 'sort_values': (op_sort_values, KEEP),
    'sort_values inplace': (op_sort_values_inplace, KEEP), 'sort ignore_index': (op_sort_ignore, INDEX),
    'sort_index': (op_sort_index, KEEP), 'sort_index inplace': (op_sort_index_inplace, KEEP), 'sample': (op_sample, KEEP),
    'drop': (op_drop_rows, KEEP), 'drop inplace': (op_drop_rows_inplace, KEEP), 'dedupe': (op_dedupe, KEEP),
    'dropna': (op_dropna, KEEP), 'query': (op_query, KEEP), 'group': (op_group, KEEP), 'group head': (op_group_head, LOSE),
    'group filter': (op_group_filter, LOSE), 'copy': (op_copy, KEEP), 'columns': (op_columns, KEEP),
    'rows and columns': (op_rows_and_columns, KEEP), 'reset_index': (op_reset_index, INDEX), 'add column': (op_add_column, KEEP),
    'rename': (op_rename, KEEP), 'values': (op_values, KEEP), 'reindex': (op_reindex, KEEP), 'nlargest': (op_nlargest, INDEX),
    'compute': (op_compute, KEEP), 'isin': (op_isin, KEEP), 'truncate': (op_truncate, KEEP), 'concat': (op_concat, LOSE),
    'merge': (op_merge, LOSE), 'set_index': (op_set_index, INDEX), 'drop column': (op_drop_column, KEEP),
    'relabel': (op_relabel, INDEX), 'group reduce': (op_group_reduce, LOSE), 'sort and number': (op_sort_all, INDEX),
}
MORE = ['sort_values', 'sort_values inplace', 'sort_index', 'sample', 'iloc', 'loc labels', 'slice', 'reindex', 'mask',
        'sort and number', 'sort and number', 'sort and number', 'group reduce', 'group reduce']


@st.composite
def cases(draw, tier):
    depth = draw(st.sampled_from([1, 1, 2]))
    topology = []
    for i in range(draw(st.integers(1, 3))):
        topology.append([0, 1 + (i % depth), draw(st.sampled_from([False, False, True]))])
    if depth == 2:
        topology.append([1, 2, draw(st.sampled_from([False, False, True]))])
        if not any(d == 2 for s, d, _ in topology if s == 0) and not any(d == 1 for s, d, _ in topology if s == 0):
            topology.append([0, 2, False])
    schema = draw(frames.schemas(tier, topology, max_n=8 if tier == 'quick' else 16, late=False, key_named_links=False,
                                 value_names=['v_a', 'v_b', 'v_c', 'v_d'], max_cols=3, root_min=draw(st.sampled_from([0, 4, 4, 4, 5])),
                                 kinds=['i8', 'i4', 'f8', '?', 'text', 'textn', 'cat', 'date', 'u1'],
                                 link_names=['L', 'hh', 'zone', 'my link', 'p_1']))
    n = schema['tables'][0]['n']
    schema['tables'][0]['cols'].append(['rid', 'i8', list(range(n)), False])
    ops = []
    for _ in range(draw(st.integers(1, 6 if tier == 'quick' else 10))):
        ops.append([draw(st.sampled_from(sorted(OPS) + MORE)), draw(st.integers(0, 63)), draw(st.integers(0, 63)),
                    draw(st.booleans())])
    schema['ops'] = ops
    schema['extend'] = draw(st.integers(0, 3)) == 0
    schema['rekey'] = draw(st.sampled_from([None, None, [draw(st.integers(0, 5)), draw(st.booleans()), draw(st.integers(1, 7))]]))
    return schema


def reads_of(case):
    """[(name of the link of the root, link number, text, function of a frame)]"""
    links = case['links']
    out = []
    for no, link in enumerate(links):
        if link['src'] != 0:
            continue
        name = link['name']
        dst = case['tables'][link['dst']]
        col = next((c[0] for c in dst['cols'] if c[1] != 'date'), '1')
        if link['agg']:
            out.append((name, no, f'{name}.count({col!r})', lambda f, name=name, col=col: f[name].count(col)))
            numbers = [c[0] for c in dst['cols'] if c[1] in ('i8', 'i4', 'u1', 'f8')]
            if numbers:
                out.append((name, no, f'{name}.max({numbers[0]!r})',
                            lambda f, name=name, col=numbers[0]: f[name].max(col)))
            continue
        for c in dst['cols'][:2]:
            out.append((name, no, f'{name}.{c[0]}', lambda f, name=name, col=c[0]: f[name][col]))
        for no2, link2 in enumerate(links):
            if link2['src'] != link['dst'] or link2['name'] == name and False:
                continue
            far = case['tables'][link2['dst']]['cols'][0][0]
            if link2['agg']:
                out.append((name, no, f'{name}.{link2["name"]}.count()', lambda f, a=name, b=link2['name']: f[a][b].count()))
            else:
                out.append((name, no, f'{name}.{link2["name"]}.{far}',
                            lambda f, a=name, b=link2['name'], c=far: f[a][b][c]))
    return out


def run(case, ctx):
    import pandas as pd
    from pandas.testing import assert_frame_equal
    fs = frames.build(case, ctx)
    root = fs[0]
    links = {link['name']: link for link in case['links'] if link['src'] == 0}
    reads = reads_of(case)
    # The lookups of the original, from an identical frame (reading them would compute the deferred indexers)
    original = frames.build(case)
    expected = {}
    for name, no, text, read in reads:
        s = ctx.sut(text, lambda: read(original[0]))
        expected[text] = list(s.array)
        link = case['links'][no]
        if not link['agg'] and text == f'{name}.{case["tables"][link["dst"]]["cols"][0][0]}':
            kind, values = frames.table_column(case['tables'][link['dst']], case['tables'][link['dst']]['cols'][0][0])
            require_list(ctx, f'{text} of the original', expected[text],
                         [frames.plain(kind, frames.DEFAULT_FILLS[kind]) if p is None else values[p]
                          for p in frames.follow(case, [no])])
    twin = frames.make_table(case['tables'][0], linked=False)

    # Each frame with: its twin, the links which must be there, those which can't be checked any more, or may not be kept
    alive = [{'frame': root, 'twin': twin, 'must': set(links), 'text': 'the frame'}]
    for name, a, b, check in case['ops']:
        fn, effect = OPS[name]
        current = alive[-1]
        try:
            new_twin = fn(current['twin'].copy(deep=True), a, b)
        except Exception as e:
            raise HarnessError(f'{name}({a}, {b}) does not work on a plain frame: {type(e).__name__}: {e}')
        text = f'{current["text"]} -> {name}({a}, {b})'
        new = ctx.sut(text, fn, current['frame'], a, b)
        must = set(current['must'])
        for link_name in list(must):
            kind, labels = links[link_name]['self']
            if effect == LOSE or (effect == INDEX and kind != 'cols'):
                must.discard(link_name)
            if kind == 'cols' and any(x not in new_twin.columns for x in labels):
                must.discard(link_name)
        if new is current['frame']:
            current.update(twin=new_twin, must=must, text=text)
        else:
            alive.append({'frame': new, 'twin': new_twin, 'must': must, 'text': text})
        ctx.label(name)
        if check:
            check_frame(ctx, alive[-1], reads, expected)
    for entry in alive[::-1]:
        check_frame(ctx, entry, reads, expected, True)
        for refresh in (False, True):
            ctx.sut(f'{entry["text"]}: compute_indexers({refresh})', entry['frame'].compute_indexers, refresh=refresh)
            check_frame(ctx, entry, reads, expected)
    if case['extend']:
        extend(case, ctx, alive[-1], reads, expected)
    if case['rekey']:
        rekey(case, ctx, alive, reads, expected)
    n = case['tables'][0]['n']
    for entry in alive:
        rids = list(entry['twin']['rid'])
        if len(set(rids)) > 1 and rids != list(range(n)) and entry['must'] and entry['frame'] is not root:
            ctx.nontrivial = True


def extend(case, ctx, entry, reads, expected):
    """Adds rows with new labels, which have no link"""
    frame, twin, text = entry['frame'], entry['twin'], entry['text']
    if not unique(twin) or twin.index.nlevels > 1 or len(twin) == 0:
        return
    labels = list(twin.index)
    if all(type(x) is int for x in labels):
        new = [max(labels) + 1, min(labels) - 5]
    elif all(type(x) is str for x in labels):
        new = ['new', '_']
    else:
        return
    labels = [new[0]] + labels[::-1] + [new[1]]
    got = ctx.sut(f'{text} -> reindex({labels})', frame.reindex, labels)
    there = set(ctx.sut('link_summary()', got.link_summary).index)
    rids = [None] + [int(r) for r in twin['rid']][::-1] + [None]
    for name, no, what, read in reads:
        link = case['links'][no]
        dst = case['tables'][link['dst']]
        col = next((c for c in dst['cols'] if what == f'{name}.{c[0]}'), None)
        # (New labels could be keys, large numbers are rounded by pandas, and missing keys may be in one table only)
        plain = link['self'][0] == 'cols' and not any(k is None for row in link['dst_keys'] for k in row) and \
            not any(type(k) is int and abs(k) > 2 ** 31 for row in link['src_keys'] for k in row)
        if name in there and not link['agg'] and col is not None and plain:
            s = ctx.sut(f'{text} -> reindex({labels}): {what}', read, got)
            fill = frames.plain(col[1], frames.DEFAULT_FILLS[col[1]])
            require_list(ctx, f'{text} -> reindex({labels}): {what}', list(s.array), [fill if r is None else expected[what][r] for r in rids])
            ctx.label('rows with new labels')


def rekey(case, ctx, alive, reads, expected):
    """Gives other keys to a copy, or to the frame of which there is a copy"""
    import pandas as pd
    which, change_copy, step = case['rekey']
    entry = alive[which % len(alive)]
    keys = {name: case['links'][no]['self'][1] for name, no, _, _ in reads if case['links'][no]['self'][0] == 'cols'}
    n = len(entry['twin'])
    if not keys or n < 2:
        return
    copied = ctx.sut(f'{entry["text"]} -> copy()', entry['frame'].copy)
    both = [dict(entry, frame=copied, text=entry['text'] + ' -> copy()'), entry]
    changed, kept = both if change_copy else both[::-1]
    order = [(i + step) % n for i in range(n)]
    frame, text = changed['frame'], changed['text'] + ' with other keys'
    for column in {c: None for names in keys.values() for c in names}:
        if column in frame.columns:
            ctx.sut(f'{text}: setting {column!r}', frame.__setitem__, column, pd.DataFrame.__getitem__(frame, column).array.take(order))
    ctx.sut(f'{text}: compute_indexers()', frame.compute_indexers)
    ctx.sut(f'{kept["text"]}: compute_indexers()', kept['frame'].compute_indexers)
    there = set(ctx.sut('link_summary()', frame.link_summary).index)
    rids = [int(r) for r in entry['twin']['rid']]
    for name, no, what, read in reads:
        if name in there:
            s = ctx.sut(f'{text}: {what}', read, frame)
            new = name in keys and all(c in frame.columns for c in keys[name])
            require_list(ctx, f'{text}: {what}', list(s.array), [expected[what][rids[i]] for i in (order if new else range(n))])
    check_frame(ctx, kept, reads, expected)
    ctx.label('other keys')


def check_frame(ctx, entry, reads, expected, data=False):
    import pandas as pd
    from cheval import LinkedDataFrame
    from pandas.testing import assert_frame_equal
    frame, twin, text = entry['frame'], entry['twin'], entry['text']
    ctx.require(isinstance(frame, LinkedDataFrame), lambda: f'{text}: is a {type(frame)}')
    if data:
        try:
            assert_frame_equal(pd.DataFrame(frame), twin)
        except AssertionError as e:
            ctx.fail(f'{text}: differs from the same operations on a plain DataFrame: {str(e)[:300]}')
    there = set(ctx.sut(f'{text}: link_summary()', frame.link_summary).index)
    missing = entry['must'] - there
    ctx.require(not missing, lambda: f'{text}: the links {sorted(missing)} are gone')
    rids = list(twin['rid'])
    for name, no, what, read in reads:
        if name not in there:
            continue
        s = ctx.sut(f'{text}: {what}', read, frame)
        want = [expected[what][int(r)] for r in rids]
        require_list(ctx, f'{text}: {what} of the rows {rids}', list(s.array), want)
        ctx.require(s.index.equals(frame.index), lambda: f'{text}: {what} has the index {list(s.index)}')
        ctx.label('lookups compared')


PARTS = [
    Part('selections', cases, run, 1800, 30000),
    Part('large', large.large_selections, large.run_selections, 80, 2000),
]
