"""C18: linking classifies the relationship correctly and refuses bad specifications"""
from hypothesis import strategies as st

from harness import frames
from harness.core import require_list, same_value
from harness.frames import FAMILIES
from harness.part import Part


# ------------------------------------------------------------------------------------- classification, refusals, summary

@st.composite
def keys(draw, fams, n, dups):
    """Rows of key values, with or without duplicates"""
    pools = [FAMILIES[f][0] for f in fams]
    rows = draw(st.lists(st.tuples(*[st.integers(0, len(p) - 1) for p in pools]), min_size=n, max_size=n, unique=True))
    rows = [[p[i] for p, i in zip(pools, row)] for row in rows]
    if dups and n >= 2:
        i, j = draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=2, unique=True))
        rows[i] = list(rows[j])
    return rows


BAD = ['unknown column', 'unknown other column', 'unknown level', 'unknown other level', 'level number', 'on and levels',
       'self conflict', 'other conflict', 'on and self_levels', 'levels and on_self', 'more self', 'more other',
       'too many levels', 'many to many', 'multi-level columns', 'on unknown', 'levels unknown', 'some unknown']


@st.composite
def class_cases(draw, tier):
    steps = []
    n_src = draw(st.integers(0, 6))
    others = []
    for t in range(draw(st.integers(1, 3))):
        others.append({'n': draw(st.integers(0, 6)), 'linked': draw(st.booleans())})
    source = {'n': n_src, 'linked': True, 'keys': [], 'cols': [['v', 'i8', list(range(n_src)), False]], 'index': None}
    tables = [source]
    for o in others:
        tables.append({'n': o['n'], 'linked': o['linked'], 'keys': [], 'cols': [
            ['v', 'i8', [10 + i for i in range(o['n'])], False], ['w', 'text', ['t%d' % i for i in range(o['n'])], False]],
            'index': None})
    names = ['L', 'hh', 'my link', 'z_2']
    for no in range(draw(st.integers(1, 5))):
        t = draw(st.integers(1, len(others)))
        n_levels = draw(st.sampled_from([1, 1, 2, 3]))
        fams = [draw(st.sampled_from(['int', 'sint', 'str', 'float', 'bool', 'date', 'mixed', 'big'])) for _ in range(n_levels)]
        size = 1
        for f in fams:
            size *= len(FAMILIES[f][0])
        if size < 12:
            fams[0] = 'int'
        kinds = [draw(st.sampled_from(FAMILIES[f][1])) for f in fams]
        kinds2 = [draw(st.sampled_from([k, k, draw(st.sampled_from(FAMILIES[f][1]))])) for f, k in zip(fams, kinds)]
        src = draw(keys(fams, n_src, draw(st.booleans())))
        dst = draw(keys(fams, others[t - 1]['n'], draw(st.booleans())))
        for i in range(len(dst)):
            if src and draw(st.booleans()):
                new = list(draw(st.sampled_from(src)))
                if new not in dst:
                    dst = [new if row == dst[i] else row for row in dst]
        stores = {}
        for side, table, rows, ks in (('self', source, src, kinds), ('other', tables[t], dst, kinds2)):
            values = [[r[i] for r in rows] for i in range(n_levels)]
            if table['index'] is None and draw(st.sampled_from([0, 0, 1])):
                named = draw(st.booleans())
                table['index'] = {'names': [f'i{no}{i}' if named else None for i in range(n_levels)], 'kinds': ks,
                                  'values': values}
                how = draw(st.sampled_from(['index', 'levels']))
                stores[side] = ['index', None] if how == 'index' else [
                    'levels', [f'i{no}{i}' if named and draw(st.booleans()) else i for i in range(n_levels)]]
            else:
                labels = [f'k{no}_{side}_{i}' for i in range(n_levels)]
                if draw(st.sampled_from([0, 0, 0, 1])):  # Names which are no texts, or look alike
                    labels = [70 + no, str(70 + no), 70.5 + no][:n_levels]
                table['keys'] += [[a, b, c] for a, b, c in zip(labels, ks, values)]
                stores[side] = ['cols', labels]
        steps.append({'op': 'link', 'src': 0, 'dst': t, 'name': draw(st.sampled_from(names)), 'self': stores['self'],
                      'other': stores['other'], 'src_keys': src, 'dst_keys': dst, 'pre': draw(st.booleans()),
                      'form': draw(st.integers(0, 7))})
        for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
            steps.append({'op': draw(st.sampled_from(['look', 'compute', 'summary', 'add column'])), 'table': t})
        for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
            steps.append({'op': 'bad', 'how': draw(st.sampled_from(BAD)), 'dst': t, 'name': draw(st.sampled_from(names)),
                          'pre': draw(st.booleans()), 'a': draw(st.integers(0, 7))})
    return {'tables': tables, 'steps': steps}


def hashable(row):
    return tuple((type(v) is str, type(v) is bool, v) for v in row)


def bad_kwargs(case, step, frames_, links):
    """kwargs of a specification which has to be refused, or None if there isn't any here"""
    source, target = frames_[0], frames_[step['dst']]
    a, how = step['a'], step['how']
    sc = [c for c in source.columns]
    tc = [c for c in target.columns]
    s, o = sc[a % len(sc)], tc[a % len(tc)]
    sn, on = source.index.nlevels, target.index.nlevels
    return {
        'unknown column': {'on_self': 'nosuch', 'on_other': o},
        'unknown other column': {'on_self': s, 'on_other': ['nosuch']},
        'some unknown': {'on_self': [s, 'nosuch'], 'on_other': [o, 'v']},
        'unknown level': {'self_levels': 'nosuch', 'on_other': o},
        'unknown other level': {'on_self': s, 'other_levels': ['nosuch']},
        'level number': {'self_levels': [sn + a], 'on_other': [o]} if a & 1 else {'on_self': s, 'other_levels': on + a},
        'on and levels': {'on': 'v', 'levels': 0},
        'self conflict': {'on_self': s, 'self_levels': 0, 'on_other': o},
        'other conflict': {'on_self': s, 'other_levels': 0, 'on_other': o},
        'on and self_levels': {'on': 'v', 'self_levels': 0},
        'levels and on_self': {'levels': 0, 'on_self': s},
        'more self': {'on_self': [s, 'v'], 'on_other': [o]},
        'more other': {'on_self': [s], 'on_other': [o, 'v', 'w'][:2 + a % 2]},
        'too many levels': {'self_levels': list(range(sn + 1)), 'on_other': (tc * 9)[:sn + 1]},
        'on unknown': {'on': 'nosuch'},
        'levels unknown': {'levels': ['nosuch']},
    }.get(how)


def run_class(case, ctx):
    import pandas as pd
    from cheval import LinkAggregationRequired, LinkedDataFrame
    fs = [frames.make_table(t) for t in case['tables']]
    links = {}
    refused = 0
    for no, step in enumerate(case['steps']):
        op = step['op']
        if op == 'link':
            src = [hashable(r) for r in step['src_keys']]
            dst = [hashable(r) for r in step['dst_keys']]
            src_dup, dst_dup = len(set(src)) < len(src), len(set(dst)) < len(dst)
            kwargs = frames.link_kwargs(step)
            what = f'link_to(T{step["dst"]}, {step["name"]!r}, {kwargs}, precompute={step["pre"]})'

            def go():
                return fs[0].link_to(fs[step['dst']], step['name'], precompute=step['pre'], **kwargs)
            if src_dup and dst_dup:
                ctx.refused(what, Exception, go)
                ctx.label('many-to-many')
                refused += 1
            else:
                got = ctx.sut(what, go)
                expected = LinkAggregationRequired.YES if dst_dup else LinkAggregationRequired.NO
                ctx.require(got is expected, lambda: f'{what} with the keys {step["src_keys"]} and {step["dst_keys"]} '
                                                     f'returned {got} instead of {expected}')
                links.pop(step['name'], None)
                links[step['name']] = dict(step, agg=dst_dup, computed=step['pre'])
                ctx.label('aggregation required' if dst_dup else 'many-to-one' if src_dup else 'one-to-one')
        elif op == 'bad':
            refuse(case, ctx, step, fs, links)
            refused += 1
        elif op == 'look':
            look(case, ctx, fs, links)
        elif op == 'compute':
            ctx.sut('compute_indexers()', fs[0].compute_indexers, refresh=bool(no % 2))
            for link in links.values():
                link['computed'] = True
        elif op == 'add column':
            fs[step['table']][f'added{no}'] = 1
        if op != 'look':
            summary(case, ctx, fs, links)
    look(case, ctx, fs, links)
    summary(case, ctx, fs, links)
    ctx.nontrivial = len(links) > 0 and (refused > 0 or len(links) > 1) and len(fs[0]) > 1


def refuse(case, ctx, step, fs, links):
    import pandas as pd
    from cheval import LinkedDataFrame
    target = fs[step['dst']]
    if step['how'] == 'many to many':
        # Both sides have a constant column
        if len(fs[0]) < 2 or len(target) < 2:
            return
        fs[0]['const'], target['const'] = 1, 1
        kwargs = {'on': 'const'} if step['a'] & 1 else {'on_self': 'const', 'on_other': ['const']}
    elif step['how'] == 'multi-level columns':
        target = pd.DataFrame([[1, 2]] * 2, columns=pd.MultiIndex.from_product([['v'], ['a', 'b']]))
        kwargs = {'on_self': 'v'}
    else:
        kwargs = bad_kwargs(case, step, fs, links)
    what = f'link_to(T{step["dst"]}, {step["name"]!r}, {kwargs})'
    ctx.refused(what, Exception, fs[0].link_to, target, step['name'], precompute=step['pre'], **kwargs)
    ctx.label('refused: ' + step['how'])


def look(case, ctx, fs, links):
    for name, link in links.items():
        m = frames.matches(link)
        table = case['tables'][link['dst']]
        values = [v for _, _, v, _ in table['cols'][:1]][0]
        if link['agg']:
            got = ctx.sut(f'{name}.sum()', lambda: list(fs[0][name].sum('v')))
            expected = [sum(values[i] for i in x) if x else -1 for x in m]
            ctx.refused(f'{name}.v without an aggregation', (AttributeError, KeyError, TypeError),
                        lambda: getattr(fs[0][name], 'v'))
        else:
            got = ctx.sut(f'{name}.v', lambda: list(fs[0][name].v))
            expected = [values[x[0]] if x else 0 for x in m]
        require_list(ctx, f'lookup through {name!r}', got, expected)
        link['computed'] = True
        if name.isidentifier():
            ctx.require(name in dir(fs[0]), f'{name!r} is not in dir()')
    names = {l for l in ('L', 'hh', 'z_2') if l not in links}
    for name in names:
        ctx.refused(f'{name} which is not a link', AttributeError, lambda: getattr(fs[0], name))
        ctx.refused(f'[{name}] which is not a link', KeyError, lambda: fs[0][name])


def summary(case, ctx, fs, links):
    from cheval import LinkedDataFrame
    s = ctx.sut('link_summary()', fs[0].link_summary)
    ctx.require(sorted(s.index) == sorted(links), lambda: f'link_summary() lists {list(s.index)} instead of {list(links)}')
    for name, link in links.items():
        row = s.loc[name]
        target = fs[link['dst']]
        ctx.require(fs[0].get_link_target(name) is target, lambda: f'get_link_target({name!r}) is something else')

        def check(column, expected):
            ctx.require(row[column] == expected, lambda: f'link_summary() says {column} = {row[column]!r} for {name!r} '
                                                         f'instead of {expected!r}')
        check('target_shape', str(target.shape))
        check('chained', isinstance(target, LinkedDataFrame))
        check('aggregation', link['agg'])
        check('preindexed', link['computed'])
        for column, (kind, labels) in (('on_self', link['self']), ('on_other', link['other'])):
            text = row[column]
            ctx.require(('index' in text) == (kind != 'cols') and ('columns' in text) == (kind == 'cols'),
                        lambda: f'link_summary() says {column} = {text!r} for {name!r}, which uses its {kind}')
            ctx.require(all(str(x) in text for x in labels or []),
                        lambda: f'link_summary() says {column} = {text!r} for {name!r}, which uses {labels}')


# ----------------------------------------------------------------------------------------------------------- equivalence

@st.composite
def equal_cases(draw, tier):
    n_src, n_dst = draw(st.integers(0, 6)), draw(st.integers(2, 6))
    agg = draw(st.booleans())
    k = draw(frames.link_keys(n_src, n_dst, agg))
    n = len(k['fams'])
    k['agg'] = agg
    same = draw(st.booleans())  # The same names on both sides
    k['src_names'] = [f'k{i}' for i in range(n)]
    k['dst_names'] = [f'k{i}' if same else f'o{i}' for i in range(n)]
    k['same'] = same
    k['named'] = draw(st.sampled_from([True, True, False]))
    k['level_order'] = draw(st.permutations(range(n)))
    k['extra'] = draw(st.booleans())
    k['linked'] = draw(st.booleans())
    k['values'] = draw(st.lists(st.integers(0, 99), min_size=n_dst, max_size=n_dst))
    k['specs'] = draw(st.lists(st.tuples(st.integers(0, 255), st.booleans(), st.sampled_from([0, 0, 1, 2])), min_size=2,
                               max_size=8))
    return k


def table_with_both(names, kinds, rows, case, values=None):
    """The keys are in the columns and in the index as well"""
    import pandas as pd
    n = len(names)
    arrays = [frames.make_array(kind, [r[i] for r in rows]) for i, kind in enumerate(kinds)]
    frame = pd.DataFrame({name: pd.Series(a) for name, a in zip(names, arrays)}, columns=names,
                         index=pd.RangeIndex(len(rows)))
    frame['v'] = values if values is not None else list(range(len(rows)))
    order = case['level_order']
    levels = [arrays[i] for i in order]
    lnames = ['L' + names[i] if case['named'] else None for i in order]
    if case['extra']:
        levels.append(frames.make_array('i8', [i % 2 for i in range(len(rows))]))
        lnames.append('extra' if case['named'] else None)
    if len(levels) == 1:
        frame.index = pd.Index(levels[0], name=lnames[0])
    else:
        frame.index = pd.MultiIndex.from_arrays(levels, names=lnames)
    return frame, lnames


def run_equal(case, ctx):
    from cheval import LinkAggregationRequired, LinkedDataFrame
    src, slevels = table_with_both(case['src_names'], case['src_kinds'], case['src_keys'], case)
    dst, olevels = table_with_both(case['dst_names'], case['dst_kinds'], case['dst_keys'], case, case['values'])
    src = LinkedDataFrame(src)
    if case['linked']:
        dst = LinkedDataFrame(dst)
    n = len(case['fams'])
    where = [case['level_order'].index(i) for i in range(n)]  # The level of each key
    m = frames.matches({'src_keys': case['src_keys'], 'dst_keys': case['dst_keys']})
    if case['agg']:
        expected = [sum(case['values'][i] for i in x) if x else -1 for x in m]
    else:
        expected = [case['values'][x[0]] if x else 0 for x in m]
    total = n + bool(case['extra'])

    def refs(levels, bits):
        out = []
        for w in where:
            kind = bits % 3
            out.append(levels[w] if kind == 0 and case['named'] else w if kind <= 1 else w - total)
        return out

    def shape(labels, bit):
        return labels[0] if len(labels) == 1 and bit else tuple(labels) if len(labels) > 1 and bit and False else list(labels)
    forms = set()
    for no, (bits, pre, order) in enumerate(case['specs']):
        a, b, c = bits & 3, bits >> 2 & 3, bits >> 4
        kwargs = {}
        perm = list(range(n))
        if order == 1:
            perm = perm[::-1]  # The order of the keys does not matter if it is the same for both sides
        whole_index = not case['extra'] and perm == list(case['level_order'])
        if a == 3 and b == 3 and case['same']:
            kwargs['on'] = shape([case['src_names'][i] for i in perm], c & 1)
            if c & 2:
                kwargs['on_self'] = 'v'  # Overridden
        elif a == 2 and b == 2 and (not case['named'] or case['same']):
            r = refs(slevels, c)
            kwargs['levels'] = shape([r[i] for i in perm], c & 1)
        else:
            if a & 1:
                kwargs['on_self'] = shape([case['src_names'][i] for i in perm], c & 1)
            elif not (whole_index and c & 4):
                r = refs(slevels, c)
                kwargs['self_levels'] = shape([r[i] for i in perm], c & 1)
            if b & 1:
                kwargs['on_other'] = shape([case['dst_names'][i] for i in perm], c & 2)
            elif not (whole_index and c & 8):
                r = refs(olevels, c + 1)
                kwargs['other_levels'] = shape([r[i] for i in perm], c & 2)
        name = f'link{no}' if no % 3 else 'again'
        what = f'link_to(other, {name!r}, {kwargs}, precompute={pre})'
        got = ctx.sut(what, src.link_to, dst, name, precompute=pre, **kwargs)
        ctx.require(got is (LinkAggregationRequired.YES if case['agg'] else LinkAggregationRequired.NO),
                    lambda: f'{what} returned {got}')
        node = getattr(src, name)
        values = ctx.sut(what, lambda: list(node.sum('v') if case['agg'] else node.v))
        require_list(ctx, f'the lookup after {what}', values, expected)
        forms.add(tuple(sorted(kwargs)))
        for k in kwargs:
            ctx.label(k)
        ctx.label_if(not kwargs, 'whole indexes')
    ctx.nontrivial = len(forms) > 1 and len(set(expected)) > 1


PARTS = [Part('classification', class_cases, run_class, 1800, 20000), Part('equivalence', equal_cases, run_equal, 1800, 20000)]
