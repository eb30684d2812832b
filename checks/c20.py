"""C20: a linked frame answers ordinary operations as a plain DataFrame does"""
import io
import math
import random

from hypothesis import strategies as st

from harness import frames
from harness.core import HarnessError, same_value
from harness.part import Part

NUMBERS = 'iuf'


def pick(items, a):
    items = list(items)
    return items[a % len(items)]


def cols(df, kinds=None, no_keys=True):
    """The columns (by position of their dtype kind), which every frame has some of"""
    return [c for c in df.columns if kinds is None or getattr(df.dtypes[c], 'kind', 'O') in kinds]


def num(df, a):
    return pick(cols(df, NUMBERS) or ['rid'], a)


def anycol(df, a):
    return pick(df.columns, a)


def numeric(df):
    return df[[c for c in cols(df, NUMBERS)]]


def some(df, a):
    return [c for i, c in enumerate(df.columns) if a >> i & 1 or c == 'rid']


def mask(df, a):
    return [bool((a * (i + 3) * 2654435761 >> 7) & 1) for i in range(len(df))]


def rows(df, a, b):
    r = random.Random(a * 1009 + b)
    n = len(df)
    return [r.randrange(n) for _ in range(r.choice([0, 1, n // 2, n, n + 1]))] if n else []


def label(df, a):
    return df.index[a % len(df)] if len(df) else 0


def agg(a):
    return pick(['sum', 'mean', 'min', 'max', 'count', 'first', 'last', 'size', 'nunique', 'std'], a)


def inplace(fn):
    """An operation which changes the frame"""
    fn.inplace = True
    return fn


# ----------------------------------------------------------------------------------------------------------- operations
# Each one is a function of a frame, another (plain) frame and two numbers

def setitem(df, o, a, b):
    k = b % 7
    n = len(df)
    if k == 0:
        df['new'] = list(range(n))
    elif k == 1:
        df[num(df, a)] = a
    elif k == 2:
        df[['p', 'q']] = df[[num(df, a), 'rid']]
    elif k == 3:
        df['new'] = df[num(df, a)] * 2
    elif k == 4:
        df.loc[mask_array(df, a), 'rid'] = -1
    elif k == 5:
        df[numeric(df) < 0] = 0
    else:
        df['new'] = o[o.columns[0]]


def mask_array(df, a):
    import numpy as np
    return np.array(mask(df, a), dtype=bool)


def setloc(df, o, a, b):
    k = b % 7
    if not len(df):
        return
    i, j = a % len(df), list(df.columns).index('rid')
    if k == 0:
        df.iloc[i, j] = 99
    elif k == 1:
        df.iat[i, j] = 98
    elif k == 2:
        df.loc[label(df, a), 'rid'] = 97
    elif k == 3:
        df.at[label(df, a), 'rid'] = 96
    elif k == 4:
        df.iloc[:i, j] = 5
    elif k == 5:
        df.loc[label(df, a), 'added'] = 1.5
    else:
        df.iloc[i] = df.iloc[(i + b) % len(df)]


def setattribute(df, o, a, b):
    k = b % 4
    if k == 0:
        df.rid = df['rid'] + 1
    elif k == 1:
        df.index = [f'z{i}' for i in range(len(df))]
    elif k == 2:
        df.columns = [f'{c}' for c in df.columns]
    else:
        df.index.name = 'named'


def delete(df, o, a, b):
    c = pick([c for c in df.columns if c != 'rid'] or ['nope'], a)
    k = b % 4
    if k == 0:
        del df[c]
    elif k == 1:
        return df.pop(c)
    elif k == 2:
        df.drop(columns=[c], inplace=True)
    else:
        return df.drop(columns=c)


def insert(df, o, a, b):
    df.insert(a % (len(df.columns) + 1), 'ins' if b & 1 else 'rid', list(range(len(df))))


def select(df, o, a, b):
    k = b % 16
    if k == 0:
        return df[some(df, a)]
    if k == 1:
        return df[anycol(df, a)]
    if k == 2:
        return df[mask_array(df, a)]
    if k == 3:
        return df.loc[label(df, a)]
    if k == 4:
        return df.iloc[rows(df, a, b)]
    if k == 5:
        return df.iloc[a % (len(df) + 1):]
    if k == 6:
        return df.loc[:, some(df, a)]
    if k == 7:
        return df.iloc[:, a % len(df.columns)]
    if k == 8:
        return df.get(anycol(df, a)), df.get('nothing'), df.get('nothing', 7)
    if k == 9:
        return df.select_dtypes(pick(['number', 'object', 'bool', 'category', 'datetime'], a))
    if k == 10:
        return df.filter(items=some(df, a)), df.filter(like='v'), df.filter(regex='^[a-k]')
    if k == 11:
        return df.xs(label(df, a))
    if k == 12:
        return df.iloc[-1 - a % (len(df) + 1)]
    if k == 13:
        return df.take(rows(df, a, b))
    if k == 14:
        return df['rid'], df.rid, 'rid' in df, 'L' in df, 'nothing' in df, list(df), len(df), list(df.keys())
    return df.lookup([label(df, a)], ['rid']) if len(df) and df.index.is_unique and df.index.nlevels == 1 else None


def missing_names(df, o, a, b):
    k = b % 4
    if k == 0:
        return df['nothing']
    if k == 1:
        return df.nothing
    if k == 2:
        return df[['rid', 'nothing']]
    return hasattr(df, 'nothing'), getattr(df, 'nothing', 3), hasattr(df, 'rid')


def arithmetic(df, o, a, b):
    x = numeric(df)
    k = b % 14
    if k == 0:
        return x + a
    if k == 1:
        return x * x, x - x.iloc[::-1] if df.index.is_unique else None
    if k == 2:
        return -x, abs(x), x // 2, x % 3, x / 4
    if k == 3:
        return x > a, x == x, x != 1, (x > 0) & (x < 5), ~(x > 0)
    if k == 4:
        return x.add(1, fill_value=0), x.sub(x['rid'], axis=0), x.mul(2), x.div(3), x.rsub(1)
    if k == 5:
        return 3 - x, 2 * x, x ** 2
    if k == 6:
        return x.eq(1), x.lt(x['rid'], axis=0), x.ge(0)
    if k == 7:
        return x.clip(-1, 3), x.round(1)
    if k == 8:
        import numpy as np
        return np.sqrt(abs(x)), np.exp(x / 100), np.add(x, 1), np.isfinite(x)
    if k == 9:
        return x.cumsum(), x.cummax(), x.cummin()
    if k == 10:
        return x.diff(), x.shift(1), x.pct_change()
    if k == 11:
        return x.rank(), x.rank(method='first', ascending=False)
    if k == 12:
        return x.dot(x.T.values) if len(x) else None
    x = x.copy()
    x += 1
    x['rid'] *= 2
    return x


def reduce(df, o, a, b):
    x = numeric(df)
    k = b % 12
    if k == 0:
        return x.sum(), x.mean(), x.min(), x.max(), x.count()
    if k == 1:
        return x.sum(axis=1), x.max(axis=1), x.mean(axis=1), df.count(axis=1)
    if k == 2:
        return x.std(), x.var(), x.median(), x.quantile([0.25, 0.5]), x.quantile(0.1)
    if k == 3:
        return x.describe()
    if k == 4:
        return df.count(), df.nunique(), df.isna(), df.notna().sum()
    if k == 5:
        return x.any(), x.all(), (x > 0).any(axis=1), x.all(axis=None)
    if k == 6:
        return x.idxmax() if len(x) and df.index.is_unique else None, x.corr(), x.cov()
    if k == 7:
        return x.agg(['sum', 'min']), x.agg({'rid': 'max'}), x.agg('mean')
    if k == 8:
        return df.value_counts(subset=['rid']), df[anycol(df, a)].value_counts()
    if k == 9:
        return x.prod(), x.sem(), x.skew(), x.mad()
    if k == 10:
        return df.mode(numeric_only=True), df.memory_usage(index=False)
    return bool(df.empty), df.shape, df.size, df.ndim, df.dtypes, df.columns, df.index, df.axes


def truth(df, o, a, b):
    return bool(df)


def apply(df, o, a, b):
    x = numeric(df)
    k = b % 10
    if k == 0:
        return df.apply(lambda row: row['rid'], axis=1)
    if k == 1:
        return x.apply(lambda c: c.max() if len(c) else 0)
    if k == 2:
        return x.applymap(lambda v: v + 1)
    if k == 3:
        return df.pipe(lambda f, n: f.head(n), a % 5)
    if k == 4:
        return x.transform(lambda c: c - 1), x.transform('abs')
    if k == 5:
        return df.apply(lambda row: row * 2 if a & 1 else 3, axis=1)
    if k == 6:
        return x.apply(lambda c: c.head(2))
    if k == 7:
        return x.apply(lambda row: [row.iloc[0], 1], axis=1, result_type=pick([None, 'expand', 'reduce'], a))
    if k == 8:
        return [(i, list(r)) for i, r in x.iterrows()], [tuple(t) for t in df.itertuples(name=None)]
    return [(c, list(s)) for c, s in df.items()], [tuple(t) for t in df[['rid']].itertuples()]


def group(df, o, a, b):
    key = num(df[['rid'] + [c for c in df.columns if not df[c].isna().any()]], a)  # (pandas makes up values for other rows)
    g = df.groupby(pick([key, [key], df['rid'].to_numpy() % 2, lambda i: 0, 'rid'], b), sort=bool(a & 1),
                   as_index=bool(a & 2) or True)
    x = 'rid'
    k = (a + b) % 14
    if k == 0:
        return getattr(g[x], agg(a))()
    if k == 1:
        return g[[x]].agg(agg(b)) if agg(b) != 'size' else g.size()
    if k == 2:
        return [(key, f) for key, f in g]
    if k == 3:
        return g[x].transform('sum'), g[x].cumsum(), g[x].rank(), g.cumcount(), g.ngroup()
    if k == 4:
        return g.head(1), g.tail(1), g.nth(0)
    if k == 5:
        return g.apply(lambda f: f['rid'].sum())
    if k == 6:
        return g.apply(lambda f: f.head(1)), g.apply(len)
    if k == 7:
        return g.filter(lambda f: len(f) > 1)
    if k == 8:
        return dict(g.groups), g.ngroups, {key: list(v) for key, v in g.indices.items()}
    if k == 9:
        return g[x].agg(['min', 'max']), g.agg(total=('rid', 'sum'))
    if k == 10:
        return g.size(), g.count(), g.first(), g.last()
    if k == 11:
        return g.sum(), g.max(numeric_only=True), g.mean(numeric_only=True)
    if k == 12:
        return g[x].shift(1), g[x].diff(), g[[x]].ffill()
    return g.describe()[['rid']] if len(df) else None


def reshape(df, o, a, b):
    x = numeric(df)
    k = b % 14
    if k == 0:
        return df.T
    if k == 1:
        return x.stack(), x.unstack() if df.index.is_unique else None
    if k == 2:
        return df.melt(id_vars=['rid']), df.melt(id_vars=['rid'], value_vars=[anycol(df, a)])
    if k == 3:
        return df.explode('rid'), df.explode(anycol(df, a))
    if k == 4:
        return df.pivot(index='rid', columns=num(df, a))
    if k == 5:
        return x.squeeze(), df[['rid']].squeeze(), df.head(1).squeeze()
    if k == 6:
        return df.add_prefix('p_'), df.add_suffix('_s')
    if k == 7:
        return df.swapaxes(0, 1), df.transpose()
    if k == 8:
        return df.reset_index(), df.reset_index(drop=True)
    if k == 9:
        return df.set_index('rid'), df.set_index(['rid', num(df, a)], append=bool(a & 1), drop=bool(a & 2))
    if k == 10:
        return df.rename(columns={'rid': 'RID'}), df.rename(columns=str), df.rename_axis('ax'), df.rename_axis(columns='cx')
    if k == 11:
        return df.reindex(columns=['rid', 'other']), df.reindex(df.index[::-1]) if df.index.is_unique else None
    if k == 12:
        return df.set_axis(range(len(df)), axis=0), df.set_axis([f'c{i}' for i in range(df.shape[1])], axis=1)
    import pandas as pd
    return pd.get_dummies(df[[anycol(df, a)]]), pd.melt(df, id_vars='rid')


def combine(df, o, a, b):
    import pandas as pd
    k = b % 14
    if k == 0:
        return df.merge(o, left_on='rid', right_on='okey', how=pick(['left', 'inner', 'outer', 'right'], a))
    if k == 1:
        return df.join(o.set_index('okey'), on='rid', how=pick(['left', 'inner'], a), rsuffix='_o')
    if k == 2:
        return pd.concat([df, df.head(a % 4)]), pd.concat([df, o]), pd.concat([o, df], ignore_index=True)
    if k == 3:
        return pd.concat([df, df.add_suffix('_2')], axis=1) if df.index.is_unique else None
    if k == 4:
        return df.append(df.head(1)), df.append({'rid': 7}, ignore_index=True)
    if k == 5:
        return df.combine_first(o) if df.index.is_unique else None
    if k == 6:
        return df.align(o, axis=1), df.reindex_like(df) if df.index.is_unique else None
    if k == 7:
        return pd.merge(o, df, left_on='okey', right_on='rid', indicator=True), pd.merge(df, df, on='rid', suffixes=('', '_r'))
    if k == 8:
        return df.isin([1, 'a', 2.5]), df.isin({'rid': [1, 2]})
    if k == 9:
        return df.equals(df.copy()), df.equals(o), df.equals(df.head(1))
    if k == 10:
        return df.merge(df[['rid']], left_index=True, right_index=True, suffixes=('', '_y')) if df.index.is_unique else None
    if k == 11:
        return pd.concat({'x': df, 'y': df.tail(1)}), pd.concat([df['rid'], df[num(df, a)].rename('other')], axis=1) \
            if df.index.is_unique else None
    if k == 12:
        return df.assign(z=1, y=lambda f: f['rid'] * 2)
    return df.where(df['rid'] > a % 3), df.mask(df['rid'] > a % 3), numeric(df).where(numeric(df) > 0, -5)


def update(df, o, a, b):
    k = b % 8
    if k == 0:
        df.update(o.rename(columns={'okey': 'rid'})[['rid']]) if df.index.is_unique else None
    elif k == 1:
        df.fillna({num(df, a): 0}, inplace=True)
    elif k == 2:
        df.replace({'rid': {1: 100}}, inplace=True)
    elif k == 3:
        df.rename(columns={num(df, a): 'renamed'}, inplace=True)
    elif k == 4:
        df.reset_index(inplace=True, drop=bool(a & 1))
    elif k == 5:
        df.eval('extra = rid * 2', inplace=True)
    elif k == 6:
        df.set_index('rid', inplace=True, drop=False)
        df.index.name = None
    else:
        df.clip(lower={'rid': 1}.get('rid'), inplace=True) if all(k in NUMBERS for k in map(kind_of, df.dtypes)) else None


def kind_of(dtype):
    return getattr(dtype, 'kind', 'O')


def clean(df, o, a, b):
    k = b % 10
    if k == 0:
        return df.dropna(), df.dropna(axis=1), df.dropna(subset=[anycol(df, a)]), df.dropna(how='all'), df.dropna(thresh=2)
    if k == 1:
        return numeric(df).fillna(0), df.ffill(), df.bfill()
    if k == 2:
        return df.drop_duplicates(), df.duplicated(), df.duplicated(subset=[num(df, a)], keep=False)
    if k == 3:
        return df.replace(1, 50), df.replace({'rid': {0: 9}}), df.replace('a', 'b')
    if k == 4:
        return df.astype({'rid': 'f8'}), numeric(df).astype('f4'), df[['rid']].astype(str)
    if k == 5:
        return numeric(df).interpolate() if len(df) else None, df.isnull(), df.infer_objects()
    if k == 6:
        return df.sort_values(['rid'], ascending=bool(a & 1)), df.sort_values([num(df, a), 'rid'], kind='mergesort'), \
            df.sort_index(axis=1) if len({type(c) for c in df.columns}) == 1 else None
    if k == 7:
        return df.nlargest(2, 'rid'), df.nsmallest(a % 4, 'rid'), df.head(a % 4), df.tail(-1)
    if k == 8:
        return df.drop(df.index[:1]) if df.index.is_unique else None, df.truncate(after=3) \
            if list(df.index) == list(range(len(df))) else None
    return df.sample(frac=0.5, random_state=a), df.sample(n=3, replace=True, random_state=b) if len(df) else None


def expressions(df, o, a, b):
    c = 'rid'
    k = b % 6
    if k == 0:
        return df.eval('rid * 2 + 1'), df.eval('y = rid - 1')
    if k == 1:
        return df.query('rid > @a'), df.query('rid != 2 and rid < 100')
    if k == 2:
        local = a
        return df.eval('rid > @local'), df.query('index == index')
    if k == 3:
        return df.eval('nothing + 1')
    if k == 4:
        import pandas as pd
        return pd.eval('df.rid + 1', local_dict={'df': df})
    return df.query('rid in [1, 2, 3]')


def windows(df, o, a, b):
    x = numeric(df)
    k = b % 4
    if k == 0:
        return x.rolling(2).sum(), x[['rid']].rolling(3, min_periods=1).mean()
    if k == 1:
        return x.expanding().max()
    if k == 2:
        return x[['rid']].ewm(span=2).mean() if len(x) else None
    return x['rid'].rolling(2).apply(lambda w: w.sum())


def pivot(df, o, a, b):
    import numpy as np
    import pandas as pd
    key, key2 = num(df, a), num(df, a // 3 + 1)
    k = b % 10
    d = df[[c for c in cols(df, NUMBERS)]]
    if k == 0:
        return d.pivot_table(values='rid', index=key if key != 'rid' else df['rid'].to_numpy() % 2)
    if k == 1:
        return d.pivot_table('rid', [df['rid'].to_numpy() % 3], None, 'sum')
    if k == 2:
        return d.pivot_table(values='rid', index=df['rid'] % 2, aggfunc=agg(a))
    if k == 3:
        return d.rename(columns=str).pivot_table(index='rid')
    if k == 4:
        return d.pivot_table(values=['rid'], index=[df['rid'].to_numpy() % 2], columns=[df['rid'].to_numpy() % 3],
                             aggfunc='count', fill_value=0)
    if k == 5:
        return d.pivot_table(values='rid', index=pd.Grouper(key=key)) if key != 'rid' else None
    if k == 6:
        return d.pivot_table(values='rid', columns=key, index=lambda i: 0) if key != 'rid' else None
    if k == 7:
        return d.rename(columns=str).pivot_table(index=str(key), aggfunc='count')
    if k == 8:
        return d.rename_axis('lev').pivot_table(values='rid', index='lev') if df.index.nlevels == 1 else None
    return pd.pivot_table(d.rename(columns=str), values='rid', index=str(key2)) if key2 != 'rid' else None


def write(df, o, a, b):
    k = b % 9
    if k == 0:
        return df.to_csv(), df.to_csv(index=False, sep=';'), df.to_csv(columns=['rid'], header=False)
    if k == 1:
        out = io.StringIO()
        return df.to_csv(out), out.getvalue()
    if k == 2:
        return df.to_json(orient=pick(['split', 'records', 'values'], a)) if df.columns.is_unique else None
    if k == 3:
        return df.to_dict(pick(['list', 'split', 'records', 'series'], a)) if df.columns.is_unique else None
    if k == 4:
        return df.to_string(), repr(df), str(df.head(2)), df.to_html(), df._repr_html_()
    if k == 5:
        out = io.StringIO()
        df.info(buf=out)
        return [line for line in out.getvalue().split('\n')[1:] if 'memory' not in line]
    if k == 6:
        return df.to_records(index=False).tolist(), df.to_numpy(), df.values
    if k == 7:
        import numpy as np
        return np.asarray(df), np.array(numeric(df)), df.to_numpy(dtype=object)
    return numeric(df).to_latex()


def store(df, o, a, b):
    import copy
    import pickle
    k = b % 5
    if k == 0:
        return pickle.loads(pickle.dumps(df, protocol=pick([2, 4, 5], a)))
    if k == 1:
        return copy.copy(df)
    if k == 2:
        return copy.deepcopy(df)
    if k == 3:
        return df.copy(deep=bool(a & 1))
    import pandas as pd
    return pd.DataFrame(df)


def relabel(df, o, a, b):
    k = b % 11
    unique = df.index.is_unique
    single = df.index.nlevels == 1
    if k == 0 and unique and single:
        new = list(df.index[::2]) + pick([[12345], [], [-99, 12345]], a)
        return df.reindex(new), df[['rid']].reindex(new, fill_value=a), numeric(df).reindex(new, fill_value=0)
    if k == 1 and unique and single:
        return df[['rid']].reindex(index=df.index[::-1], columns=['rid', 'other'], fill_value=pick([0, 7, -1.5], a))
    if k == 2:
        f = df.set_axis(range(0, 2 * len(df), 2), axis=0)
        return f.reindex(range(2 * len(df)), method=pick(['ffill', 'bfill', 'nearest'], a)) if len(df) else None
    if k == 3:
        f = numeric(df).rename(columns=str)
        return f.align(o, fill_value=pick([0, 1.5], a)) if unique and single else None
    if k == 4:
        f = df.set_index(['rid', num(df, a)], append=True, drop=False)
        f.index.names = [f'level{i}' for i in range(f.index.nlevels)]
        return f.droplevel(0), f.swaplevel(0, 1), f.reorder_levels(list(range(f.index.nlevels))[::-1]), f.sort_index(level=1), \
            f.xs(f.index[a % len(f)][1], level=1) if len(f) else None, f.reset_index(level=1), f.sum(level=1, numeric_only=True), \
            f.groupby(level=1)['rid'].sum(), f.unstack(1).shape if unique and single else None
    if k == 5:
        return df.rename(index={label(df, a): 'there'}) if single else None
    if k == 6:
        return df.rename(index=lambda x: (x, 1) if a & 1 else str(x)) if single else None
    if k == 7:
        return df.rename_axis(index=['one'] if single else None), df.set_axis([f'r{i}' for i in range(len(df))], axis='index')
    if k == 8:
        return df.reindex(columns=['rid', 'rid', 'w']), df.reindex(['rid', 'nope'], axis=1, fill_value=4)
    if k == 9:
        return df.add(o.rename(columns={'okey': 'rid'})[['rid']].set_axis(range(len(o)), axis=0), fill_value=2)[['rid']] \
            if unique and single and all(isinstance(i, int) for i in df.index) else None
    return df.sort_index(ascending=bool(a & 1), kind='mergesort') if single and len({type(i) for i in df.index}) <= 1 else None


ATTRIBUTES = ['rid', 'sparse', '_name', 'name', 'cc', 'v', 'w', 'T', 'sum', 'size', 'first', 'area', 'v 2', 'nothing', '_x', '_typ', '_name', 'name', '_cols', 'str',
              'cat', 'dt', 'plot', 'columns', 'index', '_is_copy', '_mgr', '__len__', '__wrapped__', '_ipython_display_', 'loc']


def attributes(df, o, a, b):
    k = b % 9
    if k == 8:
        k = 0
        df = df.rename(columns={c: pick(ATTRIBUTES[1:5], a) for c in list(df.columns)[:1]})
    if k == 0:
        return [[n, hasattr(df, n)] for n in ATTRIBUTES]
    if k == 1:
        result = getattr(df, pick(ATTRIBUTES[:14], a))
        return result() if callable(result) and not isinstance(result, type(df)) else result
    if k == 2:
        return df[pick([None, 0, 1.5, ('rid', 'v'), ('rid',), slice(0, 2), True, float('nan'), b'rid', lambda f: 'rid',
                        ['rid'], [True] * len(df)], a)]
    if k == 3:
        return df.loc[:, pick(['nothing', ['rid', 'nothing'], lambda f: ['rid'], slice('rid', None), slice(None)], a)]
    if k == 4:
        df.plain_attribute = a
        return getattr(df, 'plain_attribute'), 'plain_attribute' in df, hasattr(df.copy(), 'plain_attribute')
    if k == 5:
        df.attrs['source'] = [a]
        return df.head(2), df.copy(), df.rename(columns=str), df.reset_index(drop=True)
    if k == 6:
        f = df.set_flags(allows_duplicate_labels=False) if df.index.is_unique else df
        return f.iloc[[0, 0]] if len(f) and a & 1 else f.head(1)
    import pandas as pd
    return sorted(set(dir(pd.DataFrame(df))) - set(dir(df)))


def wide(df, o, a, b):
    """Columns with several levels"""
    import pandas as pd
    if not df.index.is_unique:
        return None
    f = pd.concat({'x': df, 'y': df[['rid']]}, axis=1)
    k = b % 9
    if k == 0:
        return f, f['x'], f['x']['rid'], f[('y', 'rid')], f.x, f.x.rid
    if k == 1:
        return f.xs('rid', axis=1, level=1), f.loc[:, 'y'], f.loc[:, ('x', 'rid')]
    if k == 2:
        return f[[('x', 'rid'), ('y', 'rid')]].stack(0), f.droplevel(0, axis=1), f.swaplevel(axis=1)
    if k == 3:
        f[('z', 'new')] = 1
        return f, f['z'], f['nothing']
    if k == 4:
        f.columns = [f'{p}_{q}' for p, q in f.columns]
        return f, f.head(1)
    if k == 5:
        f['y', 'rid'] += 1
        return f, f.pop('y'), f
    if k == 6:
        return f.groupby([('y', 'rid')]).size(), f.sort_values(('x', 'rid')), f.y.sum()
    if k == 7:
        return hasattr(f, 'x'), hasattr(f, 'rid'), 'x' in f, ('x', 'rid') in f, 'rid' in f, list(f)
    return f.reset_index().head(2), f.T.loc['x'] if a & 1 else None


def times(df, o, a, b):
    """Rows labelled by times"""
    import pandas as pd
    f = numeric(df).rename(columns=str).set_axis(pd.date_range('2020-02-28', periods=len(df), freq='8H'), axis=0)
    k = b % 9
    if k == 0:
        return f.resample('D').sum(), f.resample('12H').agg(agg(a)) if agg(a) in ('sum', 'min', 'max', 'count') else None
    if k == 1:
        return f.asfreq('4H'), f.asfreq('4H', method='ffill'), f.asfreq('4H', fill_value=0)
    if k == 2:
        return f.shift(1, freq='D'), f.shift(-1), f.tshift(2) if len(f) > 2 else None
    if k == 3:
        return f.between_time('07:00', '09:00'), f.at_time('08:00')
    if k == 4:
        return f.first('1D'), f.last('1D')
    if k == 5:
        return f.loc['2020-02-28'], f['2020-02-28':'2020-02-29'], f.truncate(before='2020-02-29')
    if k == 6:
        return f.to_period('D'), f.tz_localize('UTC').tz_convert('America/Toronto'), f.asof(pd.Timestamp('2020-02-28 12:00')) \
            if len(f) else None
    if k == 7:
        return f.rolling('16H').sum(), f.groupby(pd.Grouper(freq='D')).sum(), f.groupby(f.index.day)['rid'].sum()
    return f.resample('D').apply(lambda x: len(x)), f.resample('4H').ffill(), [(str(t), x) for t, x in f.resample('D')]


def functions(df, o, a, b):
    """Functions of pandas and NumPy which take frames"""
    import numpy as np
    import pandas as pd
    x = numeric(df)
    k = b % 12
    if k == 0:
        return np.where(x > 0, x, -1), np.maximum(x, 2), np.negative(x.astype('f8')), np.sum(x), np.mean(x, axis=1)
    if k == 1:
        return np.add(x, x), np.multiply(x, df['rid'].to_numpy()[:, None]), np.add.reduce(x.to_numpy())
    if k == 2:
        return pd.crosstab(df['rid'], df[num(df, a)]) if num(df, a) != 'rid' else pd.crosstab(df['rid'] % 2, df['rid'])
    if k == 3:
        return pd.isna(df), pd.notnull(df), pd.unique(df['rid']), pd.factorize(df['rid'])[0]
    if k == 4:
        return pd.merge_asof(df.sort_values('rid'), o.sort_values('okey'), left_on='rid', right_on='okey')
    if k == 5:
        return pd.merge_ordered(df[['rid']], o.rename(columns={'okey': 'rid'}), on='rid', fill_method=pick([None, 'ffill'], a))
    if k == 6:
        f = df[['rid']].assign(x1=df['rid'] * 2, x2=3)
        return pd.wide_to_long(f, 'x', i='rid', j='n'), pd.lreshape(f, {'z': ['x1', 'x2']})
    if k == 7:
        return df[['rid']].compare(df[['rid']] + (df[['rid']] > 1)), x.corrwith(x['rid']) if len(x) > 2 else None
    if k == 8:
        return df[['rid']] @ [[1, 2]], df[['rid']].dot(pd.Series({'rid': 2})), x.iloc[:, :1].T @ x.iloc[:, :1]
    if k == 9:
        return df.merge(o, how='cross'), df.merge(o, left_index=True, right_index=True, how='outer') \
            if df.index.nlevels == 1 and all(isinstance(i, int) for i in df.index) else None
    if k == 10:
        return x.combine(x * 2, np.minimum), df.first_valid_index(), df.last_valid_index(), x.kurt(), x.cumprod()
    return x.agg({'rid': ['min', 'max']}), x.agg(low=('rid', 'min')), x.transform([abs]), x.aggregate(np.sum), x.apply([np.sum])


OPS = {'relabel': relabel, 'attributes': attributes, 'wide': wide, 'times': times, 'functions': functions, 'setitem': setitem, 'setloc': setloc, 'setattribute': setattribute, 'delete': delete, 'insert': insert,
       'select': select, 'missing_names': missing_names, 'arithmetic': arithmetic, 'reduce': reduce, 'truth': truth,
       'apply': apply, 'group': group, 'reshape': reshape, 'combine': combine, 'update': update, 'clean': clean,
       'expressions': expressions, 'windows': windows, 'pivot': pivot, 'write': write, 'store': store}
OFTEN = ['relabel', 'attributes', 'wide', 'times', 'functions', 'select', 'group', 'reshape', 'combine', 'arithmetic', 'reduce', 'pivot', 'setitem', 'clean']


# ----------------------------------------------------------------------------------------------------------- comparison

def compare(ctx, text, got, want):
    import numpy as np
    import pandas as pd
    from pandas.testing import assert_frame_equal, assert_index_equal, assert_series_equal
    try:
        if isinstance(want, pd.DataFrame):
            ctx.require(isinstance(got, pd.DataFrame), lambda: f'{text}: is a {type(got).__name__}')
            assert_frame_equal(pd.DataFrame(got), want, check_flags=False)
            if type(got) is not pd.DataFrame and want.columns.is_unique and want.columns.nlevels == 1 and len(want.columns) < 20:
                for c in want.columns:
                    assert_series_equal(got[c], want[c])
            # (pandas calls attrs experimental, and pivots are plain frames)
            ctx.require(got.attrs == want.attrs or type(got) is pd.DataFrame, lambda: f'{text}: has the attrs {got.attrs}, expected {want.attrs}')
            ctx.require(got.flags.allows_duplicate_labels == want.flags.allows_duplicate_labels, lambda: f'{text}: has other flags')
        elif isinstance(want, pd.Series):
            ctx.require(isinstance(got, pd.Series), lambda: f'{text}: is a {type(got).__name__}')
            assert_series_equal(got, want)
        elif isinstance(want, pd.Index):
            assert_index_equal(got, want)
        elif isinstance(want, np.ndarray):
            ctx.require(isinstance(got, np.ndarray) and got.shape == want.shape and got.dtype == want.dtype,
                        lambda: f'{text}: got {got!r}, expected {want!r}')
            for g, w in zip(got.ravel(), want.ravel()):
                ctx.require(same_value(g, w), lambda: f'{text}: got {got!r}, expected {want!r}')
        elif isinstance(want, dict):
            ctx.require(isinstance(got, dict) and list(got) == list(want), lambda: f'{text}: got {got!r}, expected {want!r}')
            for key in want:
                compare(ctx, f'{text}[{key!r}]', got[key], want[key])
        elif isinstance(want, (list, tuple)):
            ctx.require(len(got) == len(want), lambda: f'{text}: got {got!r}, expected {want!r}')
            for i, (g, w) in enumerate(zip(got, want)):
                compare(ctx, f'{text}[{i}]', g, w)
        else:
            if isinstance(got, str):
                got = got.replace('LinkedDataFrame', 'DataFrame')
            ctx.require(same_value(got, want), lambda: f'{text}: got {str(got)[:300]!r}, expected {str(want)[:300]!r}')
    except AssertionError as e:
        ctx.fail(f'{text}: differs from that of a plain DataFrame: {str(e)[:500]}')


# --------------------------------------------------------------------------------------------------------------- cases

@st.composite
def cases(draw, tier):
    topology = draw(st.sampled_from([[[0, 1, False]], [[0, 1, False], [0, 2, True]], [[0, 1, True]],
                                     [[0, 1, False], [1, 2, False]], [[0, 1, False], [1, 0, False]]]))
    schema = draw(frames.schemas(tier, topology, max_n=8 if tier == 'quick' else 20, late=False, key_named_links=False,
                                 value_names=['v', 'w', 'area', 'sum', 'size', 'v 2', 'T', 'first', 'cc', 'sparse', '_name', 'name'], max_cols=4,
                                 root_min=draw(st.sampled_from([0, 2, 4, 4, 4])),
                                 kinds=['i8', 'i4', 'f8', 'f8', 'f4', '?', 'text', 'textn', 'cat', 'catn', 'date', 'u1']))
    n = schema['tables'][0]['n']
    schema['tables'][0]['linked'] = True
    schema['tables'][0]['cols'].append(['rid', 'i8', list(range(n)), False])
    schema['linked'] = draw(st.sampled_from([True, True, True, False]))
    ops = []
    for _ in range(draw(st.integers(1, 6 if tier == 'quick' else 10))):
        ops.append([draw(st.sampled_from(sorted(OPS) + OFTEN)), draw(st.integers(0, 63)), draw(st.integers(0, 167)),
                    draw(st.booleans())])
    schema['ops'] = ops
    schema['other'] = draw(st.lists(st.integers(0, 4), min_size=0, max_size=4))
    return schema


def outcome(fn, *args):
    try:
        return 'ok', fn(*args)
    except Exception as e:
        return 'refused', e


def run(case, ctx):
    import pandas as pd
    from cheval import LinkedDataFrame
    if case['linked']:
        frame = frames.build(case)[0]
    else:
        frame = frames.make_table(case['tables'][0])
    twin = frames.make_table(case['tables'][0], linked=False)
    other = pd.DataFrame({'okey': case['other'], 'ov': [x * 1.5 for x in case['other']]})
    text = 'the frame'
    kept = [(text, frame, twin)]
    for name, a, b, follow in case['ops']:
        fn = OPS[name]
        if not twin.columns.is_unique or 'rid' not in twin.columns or twin.columns.nlevels > 1 or \
                kind_of(twin.dtypes['rid']) not in NUMBERS:
            ctx.label('sequence ended')
            break
        text = f'{text} -> {name}({a}, {b})'
        how, want = outcome(fn, twin, other.copy(), a, b)
        how2, got = outcome(fn, frame, other.copy(), a, b)
        if how == 'refused':
            ctx.label('refused by pandas')
            ctx.require(how2 == how, lambda: f'{text}: not refused, although a plain DataFrame says {type(want).__name__}: '
                                             f'{str(want)[:200]}')
            ctx.require(isinstance(got, type(want)), lambda: f'{text}: refused with {type(got).__name__}: {got}, a plain '
                                                             f'DataFrame says {type(want).__name__}: {str(want)[:200]}')
        else:
            if how2 == 'refused':
                ctx.sut(text, raise_, got)
            compare(ctx, text, got, want)
            ctx.label(name)
        compare(ctx, f'{text}, the frame itself', frame, twin)
        ctx.require(isinstance(frame, LinkedDataFrame), lambda: f'{text}: the frame became a {type(frame)}')
        if follow and how == 'ok':
            options = [(g, w) for g, w in (zip(got, want) if isinstance(want, tuple) else [(got, want)])
                       if isinstance(w, pd.DataFrame) and isinstance(g, LinkedDataFrame)]
            if options:
                frame, twin = options[a % len(options)]
                kept.append((text, frame, twin))
    for text, frame, twin in kept:
        compare(ctx, f'{text}, in the end', frame, twin)
    ctx.nontrivial = case['linked'] and len(case['tables'][0]['cols'][-1][2]) > 1


def raise_(e):
    raise e


# ------------------------------------------------------------------------------------------- constructing and reading

@st.composite
def make_cases(draw, tier):
    n = draw(st.integers(0, 6))
    names = draw(st.lists(st.sampled_from(['v', 'w', 'area', 'v 2', 'T', 'k', 'id']), min_size=1, max_size=4, unique=True))
    columns = []
    for name in names:
        kind = draw(st.sampled_from(['i8', 'f8', '?', 'text', 'textn']))
        values = draw(st.lists(frames.values_of(kind), min_size=n, max_size=n))
        if kind.startswith('text'):
            values = [None if v is None else v.replace("'", '') for v in values]
        columns.append([name, kind, values])
    return {'n': n, 'columns': columns, 'how': draw(st.sampled_from(['construct', 'construct', 'read', 'read', 'read'])),
            'a': draw(st.integers(0, 15)), 'b': draw(st.integers(0, 63))}


def table_of(case):
    import pandas as pd
    return pd.DataFrame({name: pd.Series(frames.make_array(kind, values)) for name, kind, values in case['columns']},
                        index=pd.RangeIndex(case['n']))


def construct(cls, df, a, b):
    """Different ways of making a frame"""
    import numpy as np
    import pandas as pd
    k = b % 12
    x = df.select_dtypes('number')
    if k == 0:
        return cls(df)
    if k == 1:
        return cls({c: df[c].tolist() for c in df.columns})
    if k == 2:
        return cls(x.to_numpy(), columns=[f'c{i}' for i in range(x.shape[1])])
    if k == 3:
        return cls([list(r) for r in df.to_numpy()], columns=df.columns, index=df.index + 5)
    if k == 4:
        return cls(df, columns=list(df.columns[::-1]) + ['other'])
    if k == 5:
        return cls(df, index=[3, 1, 17])
    if k == 6:
        return cls(df[df.columns[0]])
    if k == 7:
        return cls(x, dtype='f8', copy=bool(a & 1))
    if k == 8:
        return cls(), cls(columns=['a', 'b']), cls(index=[1, 2]), cls(3, index=[1, 2], columns=['z'])
    if k == 9:
        return cls.from_dict({c: df[c].tolist() for c in df.columns}), cls.from_records(df.to_records(index=False))
    if k == 10:
        return cls([dict(zip(df.columns, r)) for r in df.to_numpy()])
    return cls(df.to_dict('series')), cls(np.zeros((2, 2), dtype='i4')), cls(pd.DataFrame(df, index=df.index[:1]))


def read(module, df, a, b):
    """Different ways of reading what pandas wrote. `module` is pandas or the class."""
    k = b % 9
    special = dict([[{}, {'index_col': 0}, {'nrows': 2}, {'usecols': [0]}, {'skiprows': 1, 'header': None},
                     {'dtype': str}, {'names': list(range(df.shape[1])), 'header': 0}, {'na_values': ['1', 'a']}][a % 8]][0])
    generic = getattr(module, 'read_', None)

    def by_name(name, *args, **kwargs):
        return generic(name, *args, **kwargs) if generic else getattr(module, f'read_{name}')(*args, **kwargs)
    if k == 0:
        return module.read_csv(io.StringIO(df.to_csv(index=False)), **special)
    if k == 1:
        return module.read_csv(io.StringIO(df.to_csv(index=False, sep=';')), sep=';', **special)
    if k == 2:
        return module.read_table(io.StringIO(df.to_csv(index=False, sep='\t')), **special)
    if k == 3:
        return module.read_fwf(io.StringIO(df.to_string(index=False)))
    if k == 4:
        return by_name('csv', io.StringIO(df.to_csv(index=False)), **special)
    if k == 5:
        return by_name('json', df.to_json(orient='split'), orient='split')
    if k == 6:
        out = io.BytesIO()
        df.to_pickle(out)
        return by_name('pickle', io.BytesIO(out.getvalue()))
    if k == 7:
        return by_name('nothing', 'x')
    return module.read_csv(io.StringIO(''))


def run_make(case, ctx):
    import pandas as pd
    from cheval import LinkedDataFrame
    df = table_of(case)
    a, b = case['a'], case['b']
    if case['how'] == 'construct':
        text = f'construct({a}, {b})'
        how, want = outcome(construct, pd.DataFrame, df, a, b)
        how2, got = outcome(construct, LinkedDataFrame, df, a, b)
    else:
        text = f'read({a}, {b})'
        how, want = outcome(read, pd, df, a, b)
        how2, got = outcome(read, LinkedDataFrame, df, a, b)
    if how == 'refused':
        ctx.label('refused by pandas')
        ctx.require(how2 == how and isinstance(got, type(want)), lambda: f'{text}: {how2} with {got!r}, instead of {want!r}')
        return
    if how2 == 'refused':
        ctx.sut(text, raise_, got)
    compare(ctx, text, got, want)
    ctx.label(case['how'])
    for f, w in zip(got, want) if isinstance(want, tuple) else [(got, want)]:
        ctx.require(isinstance(f, LinkedDataFrame), lambda: f'{text}: is a {type(f).__name__}')
        if f.shape[1] and f.columns.is_unique and not any(kind_of(x) == 'O' for x in f.index.to_frame().dtypes) \
                and f.index.is_unique and f.index.nlevels == 1 and not f.index.hasnans:
            # It can be linked both ways
            target = pd.DataFrame({'linked_v': [i * 2 for i in range(len(f))]}, index=f.index[::-1])
            ctx.sut(f'{text}: link_to()', f.link_to, target, 'the_link')
            compare(ctx, f'{text}: lookup', list(ctx.sut('lookup', lambda: f.the_link.linked_v)),
                    [2 * i for i in range(len(f))][::-1])
            compare(ctx, f'{text}: after linking', f, w)
            ctx.nontrivial = case['n'] > 1
            ctx.label('linked')


PARTS = [
    Part('making', make_cases, run_make, 1200, 12000),
    Part('operations', cases, run, 2400, 40000),
]
