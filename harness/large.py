"""Links between tables of hundreds or thousands of rows, whose data follow from a few generated numbers"""
import datetime
import math
import random

from hypothesis import strategies as st

from harness.core import require_list

SIZES = [40, 129, 257, 300, 1000, 1025, 3000, 5000]
FAMILIES = ['int', 'neg', 'str', 'float', 'pair', 'date']
DEFAULTS = {'i8': 0, 'f8': None, 'text': '', '?': False}


@st.composite
def large_cases(draw, tier, agg=False):
    case = {'n': draw(st.sampled_from(SIZES)), 'm': draw(st.sampled_from(SIZES + [70000])), 'far': draw(st.sampled_from([1, 40, 300, 1025])),
            'fam': draw(st.sampled_from(FAMILIES)), 'agg': agg, 'seed': draw(st.integers(0, 9999)), 'pre': draw(st.booleans()),
            'source_order': draw(st.sampled_from(['random', 'sorted', 'nearly', 'reversed'])),
            'target_order': draw(st.sampled_from(['random', 'sorted', 'nearly', 'reversed'])),
            'self': draw(st.sampled_from(['columns', 'columns', 'index'])), 'other': draw(st.sampled_from(['columns', 'columns', 'index'])),
            'hit': draw(st.sampled_from([1.0, 0.95, 0.5])), 'linked': draw(st.booleans())}
    if not agg and draw(st.integers(0, 4)) == 0:
        # The same keys on both sides, row by row
        case['twins'] = True
        case['n'] = case['m'] = draw(st.sampled_from([40, 300, 5000, 40000]))
    return case


def key(fam, i):
    """Levels of the i-th key"""
    if fam == 'int':
        return [i * 3]
    if fam == 'neg':
        return [2 ** 53 - i if i % 2 else -i]
    if fam == 'str':
        return [f'k{i}']
    if fam == 'float':
        return [i / 4 - 100]
    if fam == 'pair':
        return [i // 19, f's{i % 19}']
    return [datetime.datetime(2000, 1, 1) + datetime.timedelta(hours=i)]


def ordered(rng, ids, order):
    if order == 'random':
        rng.shuffle(ids)
        return ids
    ids.sort(reverse=order == 'reversed')
    if order == 'nearly' and len(ids) > 2:
        for _ in range(3):
            i = rng.randrange(len(ids) - 1)
            ids[i], ids[i + 1] = ids[i + 1], ids[i]
    return ids


class Large:
    def __init__(self, case, ctx):
        import numpy as np
        import pandas as pd
        from cheval import LinkedDataFrame
        rng = random.Random(case['seed'])
        n, m = case['n'], case['m']
        if case['agg']:
            src = ordered(rng, rng.sample(range(2 * n), n), case['source_order'])
            few = set(src[:max(3, int(n * case['hit']))])
            pool = sorted(few) + [2 * n + 1]
            dst = [rng.choice(pool) for _ in range(m)]
            dst[1] = dst[0]
            dst = ordered(rng, dst, case['target_order'])
        else:
            dst = ordered(rng, rng.sample(range(2 * m), m), case['target_order'])
            missing = sorted(set(range(2 * m + 5)) - set(dst))
            src = [rng.choice(dst) if rng.random() < case['hit'] else rng.choice(missing) for _ in range(n)]
            src = ordered(rng, src, case['source_order'])
            if case.get('twins'):
                src = list(dst)
        self.groups = None
        at = {}
        for i, k in enumerate(dst):
            at.setdefault(k, []).append(i)
        self.groups = [at.get(k, []) for k in src]
        self.position = [g[0] if g else None for g in self.groups]

        def frame(ids, side, cols):
            levels = list(zip(*[key(case['fam'], i) for i in ids]))
            if case[side] == 'index':
                index = pd.MultiIndex.from_arrays(levels, names=[f'{side}{i}' for i in range(len(levels))]) \
                    if len(levels) > 1 else pd.Index(list(levels[0]), name=f'{side}0')
                df = pd.DataFrame(cols, index=index)
                spec = {'levels': [f'{side}{i}' for i in range(len(levels))]}
            else:
                df = pd.DataFrame(cols)
                for i, level in enumerate(levels):
                    df[f'{side}{i}'] = list(level)
                spec = {'columns': [f'{side}{i}' for i in range(len(levels))]}
            return df, spec
        self.data = {
            'i8': [rng.randint(-1000, 1000) for _ in range(m)],
            'f8': [None if rng.random() < 0.1 else rng.randint(-1000, 1000) / 4 for _ in range(m)],
            'text': [rng.choice(['a', 'bb', '', 'ccc']) for _ in range(m)],
            '?': [rng.random() < 0.5 for _ in range(m)]}
        far_id = [rng.randrange(case['far'] + 3) for _ in range(m)]
        self.far_data = [rng.randint(-1000, 1000) for _ in range(case['far'])]
        self.far = [self.far_data[i] if i < case['far'] else 0 for i in far_id]

        target, other_spec = frame(dst, 'other', {
            'i8': self.data['i8'], 'f8': [math.nan if v is None else v for v in self.data['f8']], 'text': self.data['text'],
            '?': self.data['?'], 'far_id': far_id})
        self.rid = list(range(n))
        source, self_spec = frame(src, 'self', {'rid': self.rid, 'other': [rng.randint(0, 5) for _ in range(n)]})
        self.source = LinkedDataFrame(source)
        far = pd.DataFrame({'z': np.array(self.far_data, dtype='i8')})
        self.target = LinkedDataFrame(target)
        self.target.link_to(far, 'far', on_self='far_id', other_levels=0)
        kwargs = {'precompute': case['pre']}
        for spec, column, level in ((self_spec, 'on_self', 'self_levels'), (other_spec, 'on_other', 'other_levels')):
            if 'levels' in spec:
                kwargs[level] = spec['levels']
            else:
                kwargs[column] = spec['columns']
        self.agg = ctx.sut('link_to()', self.source.link_to, self.target, 'L', **kwargs)
        ctx.require(bool(self.source.L) is not None, 'link')

    def lookups(self):
        """(what, function of a frame, list of expected values)"""
        for name, values in self.data.items():
            fill = DEFAULTS[name]
            yield f'L.{name}', lambda f, name=name: f.L[name], [fill if p is None else values[p] for p in self.position]
        yield 'L.far.z', lambda f: f.L.far.z, [0 if p is None else self.far[p] for p in self.position]

    def aggregations(self):
        v, f = self.data['i8'], self.data['f8']
        g = self.groups
        far = self.far
        yield "L.sum('i8')", lambda x: x.L.sum('i8'), [sum(v[i] for i in k) if k else -1 for k in g]
        yield "L.max('i8')", lambda x: x.L.max('i8'), [max(v[i] for i in k) if k else -1 for k in g]
        yield "L.min('i8 * 2')", lambda x: x.L.min('i8 * 2'), [min(v[i] * 2 for i in k) if k else -1 for k in g]
        yield 'L.count()', lambda x: x.L.count(), [len(k) if k else -1 for k in g]
        yield "L.first('text')", lambda x: x.L.first('text'), [self.data['text'][k[0]] if k else None for k in g]
        yield "L.sum('f8')", lambda x: x.L.sum('f8'), [sum(f[i] for i in k if f[i] is not None) if k else None for k in g]
        yield "L.sum('far.z + i8')", lambda x: x.L.sum('far.z + i8'), [sum(far[i] + v[i] for i in k) if k else -1 for k in g]
        yield "L.max('i8 > 3')", lambda x: x.L.max('i8 > 3'), [any(v[i] > 3 for i in k) if k else False for k in g]

    def reads(self, case):
        return list(self.aggregations() if case['agg'] else self.lookups())


def label(case, ctx):
    ctx.label('keys ' + case['fam'])
    ctx.label_if(case['n'] > 1000, 'more than 1000 rows')
    ctx.label_if(case['m'] > 2 ** 16, 'target of more than 65536 rows')
    ctx.nontrivial = True


def run_large(case, ctx):
    """Lookups or aggregations of large tables"""
    t = Large(case, ctx)
    for rnd in range(2):
        for what, fn, expected in t.reads(case):
            got = ctx.sut(what, lambda: fn(t.source))
            ctx.require(got.index.equals(t.source.index), f'{what}: index')
            require_list(ctx, f'{what} of {case}', list(got), expected)
        if rnd == 0:
            ctx.sut('compute_indexers()', t.source.compute_indexers)
    label(case, ctx)

# region Selections


@st.composite
def large_selections(draw, tier):
    case = draw(large_cases(tier, draw(st.sampled_from([False, False, True]))))
    case['steps'] = [[draw(st.sampled_from(sorted(SELECTIONS))), draw(st.integers(0, 99))] for _ in range(draw(st.integers(1, 4)))]
    return case


def _mask(df, a):
    import numpy as np
    return np.random.RandomState(a).rand(len(df)) < (a % 9 + 1) / 10


SELECTIONS = {
    'mask': lambda df, a: df[_mask(df, a)],
    'loc mask': lambda df, a: df.loc[_mask(df, a)],
    'slice': lambda df, a: df.iloc[a:-a or None],
    'step': lambda df, a: df.iloc[::a % 5 + 1],
    'backwards': lambda df, a: df.iloc[::-1],
    'head': lambda df, a: df.head(len(df) * 2 // 3),
    'tail': lambda df, a: df.tail(len(df) // 2),
    'sort': lambda df, a: df.sort_values(['other', 'rid'], ascending=[bool(a & 1), bool(a & 2)]),
    'sort_index': lambda df, a: df.sort_index(kind='mergesort', ascending=bool(a & 1)),
    'sample': lambda df, a: df.sample(frac=0.8, random_state=a),
    'shuffle': lambda df, a: df.sample(frac=1, random_state=a),
    'repeat': lambda df, a: df.iloc[[(i * (a + 1)) % len(df) for i in range(len(df) + 3)]] if len(df) else df,
    'unique': lambda df, a: df.drop_duplicates(['other']),
    'copy': lambda df, a: df.copy(),
    'nlargest': lambda df, a: df.loc[df['rid'] > a],
    'query': lambda df, a: df.query(f'other != {a % 6}'),
}


def run_selections(case, ctx):
    t = Large(case, ctx)
    reads = t.reads(case)
    df = t.source
    for name, a in case['steps']:
        df = ctx.sut(name, SELECTIONS[name], df, a)
        rows = [int(r) for r in df['rid']]
        for what, fn, expected in reads[a % 2::2] if len(reads) > 3 else reads:
            got = ctx.sut(f'{what} after {case["steps"]}', lambda: fn(df))
            ctx.require(got.index.equals(df.index), f'{what}: index')
            # Fills of missing groups become those of a source without any matches
            require_list(ctx, f'{what} after {case["steps"]} up to {name}', list(got), [expected[r] for r in rows])
    label(case, ctx)

# endregion
