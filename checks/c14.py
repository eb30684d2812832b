"""C14: a link lookup is a left join on the link keys"""
import copy

from hypothesis import strategies as st

from harness import frames, large
from harness.core import require_list
from harness.part import Part


@st.composite
def cases(draw, tier):
    depth = draw(st.sampled_from([1, 1, 2, 2, 3] if tier == 'quick' else [1, 2, 3, 4]))
    topology = [[i, i + 1, False] for i in range(depth)]
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        # More links between any tables, also to themselves, backwards, or aggregated ones
        s, d = draw(st.integers(0, depth)), draw(st.integers(0, depth))
        topology.append([s, d, draw(st.booleans())])
    order = draw(st.permutations(range(len(topology))))
    topology = [topology[i] for i in order]
    schema = draw(frames.schemas(tier, topology, max_n=6 if tier == 'quick' else 14))
    paths = []
    for no, link in enumerate(schema['links']):
        if not link['agg']:
            paths.append([no])
    for _ in range(depth if depth == 1 else depth + 1):
        paths += [p + [no] for p in paths for no, link in enumerate(schema['links'])
                  if not link['agg'] and link['src'] == schema['links'][p[-1]]['dst'] and p + [no] not in paths
                  and len(p) <= depth]
        if len(paths) > 40:
            break
    chosen = draw(st.lists(st.sampled_from(paths), min_size=1, max_size=6, unique_by=str))
    reads = []
    for p in chosen:
        table = schema['tables'][schema['links'][p[-1]]['dst']]
        names = [c[0] for c in table['cols']] + [k[0] for k in table['keys']]
        for name in draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True)):
            # A link hides columns of the same name
            if name not in [l['name'] for l in schema['links'] if l['src'] == schema['links'][p[-1]]['dst']]:
                reads.append([p, name, draw(st.integers(0, 31))])
    schema['reads'] = reads
    schema['compute'] = draw(st.sampled_from([[], [], [0], [1], [0, 1], [1, 1]]))
    schema['updates'] = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        t = draw(st.integers(0, depth))
        n = schema['tables'][t]['n']
        what = draw(st.sampled_from(['values', 'values', 'column', 'rows', 'keys']))
        if what == 'keys':
            no = draw(st.integers(0, len(schema['links']) - 1))
            side = draw(st.sampled_from(['src', 'src', 'dst']))
            link = schema['links'][no]
            if link['self' if side == 'src' else 'other'][0] == 'cols':
                schema['updates'].append([what, link[side], [no, side, draw(st.permutations(range(len(link[side + '_keys']))))]])
            continue
        if n < 2 and what == 'rows':
            what = 'values'
        if what == 'rows':
            # (In place, of a target whose links are computed again)
            schema['updates'].append([what, t, draw(st.permutations(range(n)))])
        else:
            no = draw(st.integers(0, len(schema['tables'][t]['cols']) - 1))
            kind = schema['tables'][t]['cols'][no][1]
            if what == 'column':
                kind, values = draw(frames.column(n))
            else:
                values = draw(st.permutations(schema['tables'][t]['cols'][no][2]))
            schema['updates'].append([what, t, [no, kind, list(values), draw(st.booleans())]])
    return schema


def run(case, ctx):
    fs = frames.build(case, ctx)
    for rnd in range(2):
        for chain, name, how in case['reads']:
            check_read(case, fs, chain, name, how, ctx)
        if rnd == 0:
            for refresh in case['compute']:
                for f, t in zip(fs, case['tables']):
                    if t['linked']:
                        ctx.sut('compute_indexers()', f.compute_indexers, refresh=bool(refresh))
    for f, t in zip(fs, case['tables']):
        for name in [c[0] for c in t['cols']]:
            import pandas as pd
            kind, values = frames.table_column(t, name)
            if name not in [l['name'] for l in case['links'] if fs[l['src']] is f]:
                require_list(ctx, f'column {name!r} after the lookups', list(pd.DataFrame.__getitem__(f, name)), values)


    if case['updates']:
        case = copy.deepcopy(case)
        for what, t, how in case['updates']:
            frame, table = fs[t], case['tables'][t]
            if what == 'rows':
                ctx.sut(f'sorting T{t} in place', frames.put_in_order, frame, list(how))
                frames.reorder(case, t, how)
                # Links to the table have to find its rows again
                for f, other in zip(fs, case['tables']):
                    if other['linked']:
                        ctx.sut('compute_indexers()', f.compute_indexers)
            elif what == 'keys':
                no, side, order = how
                link = case['links'][no]
                names = link['self' if side == 'src' else 'other'][1]
                if set(names) & {l['name'] for l in case['links'] if l['src'] == t}:
                    continue
                link[side + '_keys'] = [link[side + '_keys'][k] for k in order]
                for key in table['keys']:
                    if key[0] in names:
                        key[2] = [key[2][k] for k in order]
                        ctx.sut(f'setting column {key[0]!r} of T{t}', frame.__setitem__, key[0], frames.make_array(key[1], key[2]))
                ctx.sut('compute_indexers()', fs[link['src']].compute_indexers)
            else:
                no, kind, values, located = how
                name = table['cols'][no][0]
                if name in [l['name'] for l in case['links'] if l['src'] == t]:
                    continue
                array = frames.make_array(kind, values)
                if located and what == 'values' and kind not in ('cat', 'catn', 'obj', 'text', 'textn'):
                    ctx.sut(f'setting column {name!r} of T{t}', set_located, frame, name, array)
                else:
                    ctx.sut(f'setting column {name!r} of T{t}', frame.__setitem__, name, array)
                table['cols'][no][1:3] = [kind, values]
            ctx.label('update of ' + what)
            for chain, name, form in case['reads']:
                check_read(case, fs, chain, name, form, ctx)


def set_located(frame, name, array):
    frame.loc[:, name] = array


def overwrite(s):
    s.iloc[:] = s.iloc[::-1].array


def check_read(case, fs, chain, name, how, ctx):
    links = case['links']
    root = fs[links[chain[0]]['src']]
    what = 'T%d' % links[chain[0]]['src'] + ''.join('.' + links[n]['name'] for n in chain) + '.' + str(name)

    def go():
        node = root
        for bit, no in enumerate(chain):
            node = frames.access(node, links[no]['name'], how >> bit & 1)
        s = frames.access(node, name, how >> 4 & 1)
        return s, list(s.array), list(s.index), s.dtype
    s, got, index, dtype = ctx.sut(what, go)
    dst = case['tables'][links[chain[-1]]['dst']]
    kind, values = frames.table_column(dst, name)
    fill = frames.plain(kind, frames.DEFAULT_FILLS.get(kind, '' if kind == 'obj' else None))
    if kind == 'obj' and any(c[0] == name for c in dst['cols']):
        fill = None
    position = frames.follow(case, chain)
    mixed = kind == 'obj' and not any(c[0] == name for c in dst['cols'])  # A key column, what it is called isn't clear
    import pandas as pd
    ctx.require(isinstance(s, pd.Series), lambda: f'{what} is a {type(s)}')
    ctx.require(s.index.equals(root.index) and list(s.index.names) == list(root.index.names),
                lambda: f'{what} has the index {index} instead of {list(root.index)}')
    if mixed:
        position_got = [(g if p is not None else None) for g, p in zip(got, position)]
        require_list(ctx, what, position_got, [None if p is None else values[p] for p in position])
        ctx.require(len(got) == len(position), f'{what}: wrong length')
    else:
        require_list(ctx, what, got, [fill if p is None else values[p] for p in position])
        expected = frames.dtype_of(kind, values)
        ctx.require(dtype == expected, lambda: f'{what} has dtype {dtype} instead of {expected}')
    if how & 8 and len(s):  # Which must not change the tables
        ctx.sut(f'setting values of {what}', overwrite, s)
    n_missing = sum(p is None for p in position)
    ctx.label('reads')
    ctx.label_if(n_missing and n_missing < len(position), 'some rows match')
    ctx.label_if(len(chain) > 1, 'chained')
    ctx.label_if(len(chain) > 2, 'three or more links')
    ctx.label_if(dst['n'] == 0, 'empty target')
    ctx.label_if(not position, 'empty source')
    ctx.label_if(any(len(links[n]['src_keys'][0]) > 1 for n in chain if links[n]['src_keys']), 'several key levels')
    ctx.label_if(any('index' in links[n][x][0] or 'levels' in links[n][x][0] for n in chain for x in ('self', 'other')), 'keys from the index')
    ctx.label_if(any(None in r for n in chain for r in links[n]['src_keys'] + links[n]['dst_keys']), 'missing keys')
    ctx.label('kind ' + kind)
    if len(set(p for p in position if p is not None)) > 1:
        ctx.nontrivial = True


PARTS = [
    Part('lookups', cases, run, 1600, 30000),
    Part('large', large.large_cases, large.run_large, 60, 1500),
]
