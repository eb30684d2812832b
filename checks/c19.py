"""C19: linked terms in expressions and pivots equal their materialised columns"""
import math
import re

from hypothesis import strategies as st

from harness import frames, models
from harness.core import HarnessError, is_missing, require_list, same_value
from harness.exprs import Gen, Leaf, Node, OR, PyExpr, tolerance
from harness.models import warm  # noqa
from harness.part import Part

LEAF_KINDS = {'i4': ('int', 9, 0), 'i1': ('int', 9, 0), 'i8': ('int', 9, 0), 'u1': ('uint', 255, 0), 'f8': ('float', 10, 2),
              '?': ('bool', 1, 0), 'text': ('text', 0, 0)}
KINDS = ['i8', 'i4', 'i1', 'u1', 'f8', 'f8', '?', 'text']
LINK_NAMES = ['L', 'hh', 'zone', 'o', 'd', 'LL', 'hh_', 'p1', 'x1', 'first']
NAMES = ['v', 'w', 'area', 'b2', 'L1', 'val', 'sqrt_', 'n']


TEXTS = [t if t.isascii() else 'zz' for t in frames.TEXTS]  # as NumExpr has no others
# Small integers are widened by NumExpr
LOOSE = dict(check_dtype=False, check_index_type=False, check_column_type=False, rtol=1e-9)


# -------------------------------------------------------------------------------------------------------------- drawing

def topologies(draw, depth, agg=True):
    topology = [[i, i + 1, False] for i in range(depth)]
    if agg and draw(st.sampled_from([0, 0, 1])):  # An aggregation over a table with links
        topology = [[0, 1, True], [1, draw(st.sampled_from([2, 2, 0])), False]]
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        s = draw(st.sampled_from([0, 0, draw(st.integers(0, depth))]))
        topology.append([s, draw(st.integers(0, depth + 1)), draw(st.booleans()) and agg])
    return topology


def tame(schema, no_missing=False):
    """Small numbers, and texts of which some have a length"""
    for table in schema['tables']:
        for col in table['cols']:
            if col[1] == 'i8':
                col[2] = [v % 10 if abs(v) > 9 else v for v in col[2]]
            if col[1] == 'text':
                col[2] = [v if v.isascii() else 'zz' for v in col[2]]
                if col[2] and not any(col[2]):
                    col[2][0] = 'ab'
            if col[1] == 'f8' and no_missing:
                col[2] = [0.75 if v is None else v for v in col[2]]


def leaf(src, kind, nan):
    k, m, frac = LEAF_KINDS[kind]
    return Leaf(src, k, float(m), frac, nan, TEXTS)


def links_of(schema, t):
    return [no for no, link in enumerate(schema['links']) if link['src'] == t]


def plain_terms(draw, schema, t, max_len=3):
    """All chains of links from a table which need no aggregation"""
    paths = [[no] for no in links_of(schema, t) if not schema['links'][no]['agg']]
    for p in paths:
        if len(p) < max_len and len(paths) < 30:
            paths += [p + [no] for no in links_of(schema, schema['links'][p[-1]]['dst']) if not schema['links'][no]['agg']]
    return paths


def attr_term(draw, schema, paths):
    p = draw(st.sampled_from(paths))
    table = schema['tables'][schema['links'][p[-1]]['dst']]
    hidden = [schema['links'][no]['name'] for no in links_of(schema, schema['links'][p[-1]]['dst'])]
    cols = [c for c in table['cols'] if c[0] not in hidden]
    if not cols:
        return None
    c = draw(st.sampled_from(cols))
    position = frames.follow(schema, p)
    if c[1] == 'text' and not any(q is not None and c[2][q] for q in position):
        return None  # NumExpr has no texts without any length
    return {'path': p, 'col': c[0], 'func': None,
            'leaf': leaf('', c[1], c[1] == 'f8' and (None in position or None in c[2]))}


def term_source(schema, term):
    names = [schema['links'][no]['name'] for no in term['path']]
    if term['func'] is None:
        return '.'.join(names + [term['col']])
    return '.'.join(names + [term['func']]) + '(' + (term['arg'] or '') + ')'


def agg_term(draw, schema, t, no_missing=False):
    options = []
    for p in [[]] + plain_terms(draw, schema, t, 2):
        at = schema['links'][p[-1]]['dst'] if p else t
        options += [p + [no] for no in links_of(schema, at) if schema['links'][no]['agg']]
    if not options:
        return None
    path = draw(st.sampled_from(options))
    at = schema['links'][path[-1]]['dst']
    table = schema['tables'][at]
    hidden = [schema['links'][no]['name'] for no in links_of(schema, at)] if table['linked'] else []
    cols = [c for c in table['cols'] if c[0] not in hidden]
    form = draw(st.sampled_from(['none', 'col', 'expr', 'expr', 'expr']))
    n = table['n']
    if form == 'none' or not cols:
        func = draw(st.sampled_from(['sum', 'count', 'max']))
        return {'path': path, 'func': func, 'arg': None, 'inner': [], 'leaf': Leaf('', 'int', float(max(n, 1)), 0)}
    numeric = [c for c in cols if c[1] != 'text']
    texts = [c for c in cols if c[1] == 'text' and any(c[2])]  # (NumExpr has no texts without any length)
    if form == 'col' or not numeric or not table['linked']:
        c = draw(st.sampled_from(cols))
        if c[1] == 'text':
            return {'path': path, 'func': 'count', 'arg': c[0], 'inner': [], 'leaf': Leaf('', 'int', float(n), 0)}
        func = draw(st.sampled_from(['sum', 'max', 'min', 'count', 'first', 'last'] if c[1] != 'u1' else ['max', 'count']))
        if c[1] == '?' and func in ('max', 'min', 'first', 'last'):
            return {'path': path, 'func': func, 'arg': c[0], 'inner': [], 'leaf': Leaf('', 'bool')}
        k, m, frac = LEAF_KINDS[c[1]]
        return {'path': path, 'func': func, 'arg': c[0], 'inner': [], 'leaf': Leaf('', 'float' if k == 'float' else 'int',
                                                                                   float(m * n), frac, k == 'float')}
    # An expression, which may have linked terms itself
    inner, leaves = [], []
    for c in numeric:
        if not no_missing or c[1] != 'f8':
            leaves.append(leaf(c[0], c[1], c[1] == 'f8'))
    leaves += [leaf(c[0], c[1], False) for c in texts]
    paths = plain_terms(draw, schema, at, 2)
    for i in range(draw(st.integers(0, 2)) if paths else 0):
        term = attr_term(draw, schema, paths)
        if term is not None and (not no_missing or term['leaf'].kind != 'float'):
            term['leaf'].src = f'I{i}_'
            inner.append(term)
            leaves += [term['leaf']] * 3
    if not leaves:
        return None
    g = Gen(draw, leaves, functions=False)
    if draw(st.booleans()) or no_missing or texts:
        node = g.boolean(draw(st.integers(1, 2)))
        if texts and draw(st.booleans()):
            c = draw(st.sampled_from(texts))
            some = sorted(set(c[2]), key=lambda x: (' ' not in x, x))
            if some[0]:  # (NumExpr is wrong about texts without any length)
                lit = draw(st.sampled_from(some[:1] * 2 + [x for x in some if x]))
                one = f'{c[0]} {draw(st.sampled_from(["==", "!="]))} {lit!r}'
                if draw(st.booleans()):
                    one = f'{one} {draw(st.sampled_from(["or", "and"]))} {node.src}'
                node = Node(one, OR, True, 1.0, 0)
        func = draw(st.sampled_from(['sum', 'sum', 'max', 'min', 'count', 'first']))
        result = Leaf('', 'int', float(n), 0) if func in ('sum', 'count') else Leaf('', 'bool')
    else:
        node = g.exact(draw(st.integers(1, 2)))
        func = draw(st.sampled_from(['sum', 'sum', 'max', 'min', 'last', 'count']))
        result = Leaf('', 'float', max(node.max, 1.0) * n, node.frac, True)
    inner = [dict(x, leaf=None, token=x['leaf'].src) for x in inner if re.search(r'\b' + x['leaf'].src + r'\b', node.src)]
    source = node.src
    for x in inner:
        source = re.sub(r'\b' + x['token'] + r'\b', term_source(schema, x), source)
    return {'path': path, 'func': func, 'arg': source, 'inner': inner, 'arg_plain': node.src, 'leaf': result}


def vary(draw, schema, term):
    """The same reduction of the same link, of something else"""
    table = schema['tables'][schema['links'][term['path'][-1]]['dst']]
    hidden = [schema['links'][no]['name'] for no in links_of(schema, schema['links'][term['path'][-1]]['dst'])]
    cols = [c[0] for c in table['cols'] if c[1] not in ('text', '?', 'f8') and c[0] not in hidden]
    if not cols or not table['linked']:
        return None
    arg = f'{draw(st.sampled_from(cols))} {draw(st.sampled_from(["<", ">", "<="]))} {draw(st.integers(-2, 4))}'
    if arg == term['arg']:
        return None
    result = Leaf('', 'int', float(table['n']), 0) if term['func'] in ('sum', 'count') else Leaf('', 'bool')
    return {'path': list(term['path']), 'func': term['func'], 'arg': arg, 'inner': [], 'arg_plain': arg, 'leaf': result}


def draw_terms(draw, schema, n, no_missing=False, prefix='T', pairs=None):
    terms = []
    paths = plain_terms(draw, schema, 0)
    twin = None
    for i in range(n + 1):
        if i == n and not terms:
            break
        if i == n or (terms and draw(st.integers(0, 2)) == 2):
            options = [t for t in terms if t['func'] is not None]
            twin = draw(st.sampled_from(options)) if options else None
        else:
            twin = None
        if i == n and twin is None:
            break
        term = vary(draw, schema, twin) if twin is not None else \
             attr_term(draw, schema, paths) if paths and draw(st.sampled_from([1, 1, 0])) else \
            agg_term(draw, schema, 0, no_missing)
        if term is not None and not (no_missing and term['leaf'].kind == 'float'):
            term['token'] = f'{prefix}{i}_'
            term['leaf'].src = term['token']
            terms.append(term)
            if twin is not None and pairs is not None:
                pairs.append([twin, term])
    return terms


def root_leaves(schema, prefix=''):
    hidden = [schema['links'][no]['name'] for no in links_of(schema, 0)]
    return [leaf(prefix + c[0], c[1], c[1] == 'f8' and None in c[2]) for c in schema['tables'][0]['cols'] if c[0] not in hidden]


def with_terms(schema, source, terms, prefix=''):
    for t in terms:
        source = re.sub(r'\b' + t['token'] + r'\b', lambda m: prefix + term_source(schema, t), source)
    return source


def used_terms(terms, source):
    return [t for t in terms if re.search(r'\b' + t['token'] + r'\b', source)]


def bare(terms):
    return [{k: v for k, v in t.items() if k != 'leaf'} for t in terms]


# -------------------------------------------------------------------------------------------------- evaluating on frames

def draw_schema(draw, tier, **kwargs):
    depth = draw(st.sampled_from([1, 1, 2, 2, 3]))
    schema = draw(frames.schemas(tier, topologies(draw, depth), max_n=6 if tier == 'quick' else 12, kinds=KINDS,
                                 value_names=NAMES, link_names=LINK_NAMES, key_named_links=False, max_cols=3,
                                 root_min=draw(st.sampled_from([0, 2, 2, 3])), max_levels=2, **kwargs))
    return schema


@st.composite
def eval_cases(draw, tier):
    schema = draw_schema(draw, tier)
    tame(schema)
    terms = draw_terms(draw, schema, draw(st.integers(1, 5)))
    exprs = []
    for _ in range(draw(st.integers(1, 4))):
        g = Gen(draw, root_leaves(schema) + [t['leaf'] for t in terms] * 3)
        want = draw(st.sampled_from(['number', 'boolean', 'boolean', 'exact']))
        node = getattr(g, want)(draw(st.integers(1, 4)))
        exprs.append([node.src, 0.0 if want == 'boolean' else tolerance(node)])
    # A single term on its own
    if terms and terms[0]['leaf'].kind != 'text':
        exprs.append([terms[0]['token'], 1e-12])
    schema['terms'] = bare(terms)
    schema['exprs'] = exprs
    return schema


def read_term(schema, fs, term, start=0):
    node = fs[start]
    for no in term['path']:
        node = node[schema['links'][no]['name']]
    if term['func'] is None:
        return node[term['col']]
    reduction = getattr(node, term['func'])
    return reduction() if term['arg'] is None else reduction(term['arg'])


def what_of(schema, term):
    return term_source(schema, term)


def materialise(schema, fs, terms, ctx):
    """{token: Series}, checked against a naive join, or the reduction of an expression without linked terms"""
    out = {}
    for term in terms:
        what = what_of(schema, term)
        s = ctx.sut(what, read_term, schema, fs, term)
        if term['func'] is None:
            kind, values = frames.table_column(schema['tables'][schema['links'][term['path'][-1]]['dst']], term['col'])
            fill = frames.DEFAULT_FILLS[kind]
            require_list(ctx, what, list(s), [fill if p is None else values[p] for p in frames.follow(schema, term['path'])])
        elif term['inner']:
            at = schema['links'][term['path'][-1]]['dst']
            for x in term['inner']:
                fs[at][x['token']] = ctx.sut(what_of(schema, x), read_term, schema, fs, x, at).array
            plain = dict(term, arg=term['arg_plain'], inner=[])
            s2 = ctx.sut(what_of(schema, plain), read_term, schema, fs, plain)
            require_list(ctx, f'{what}, compared with plain columns instead of the linked terms in it', list(s), list(s2))
            fs[at].drop(columns=[x['token'] for x in term['inner']], inplace=True)
            ctx.label('aggregation of linked terms')
        out[term['token']] = s
    return out


def pyvalue(v):
    if is_missing(v):
        return math.nan
    return v.item() if hasattr(v, 'item') else v


def run_eval(case, ctx):
    import pandas as pd
    from cheval import LinkedDataFrame
    fs = frames.build(case, ctx)
    values = materialise(case, fs, case['terms'], ctx)
    root = fs[0]
    hidden = [case['links'][no]['name'] for no in links_of(case, 0)]
    plain = LinkedDataFrame(pd.DataFrame({**{c: pd.DataFrame.__getitem__(root, c) for c in root.columns if c not in hidden},
                                          **values}, index=root.index))
    names = {c[0]: [pyvalue(v) for v in frames.table_column(case['tables'][0], c[0])[1]] for c in case['tables'][0]['cols']
             if c[0] not in hidden}
    for t, s in values.items():
        names[t] = [pyvalue(v) for v in s]
    for source, tol in case['exprs']:
        used = used_terms(case['terms'], source)
        if any(len(v) and isinstance(names[t['token']][0], str) and not any(names[t['token']]) for t, v in
               ((t, names[t['token']]) for t in used)):
            continue  # NumExpr has no texts without any length
        linked = with_terms(case, source, used)
        what = f'evaluate({linked!r})'
        try:
            py = PyExpr(source)
            expected = [py({k: v[i] for k, v in names.items()}) for i in range(len(root))]
        except Exception as e:
            raise HarnessError(f'the oracle cannot evaluate {source!r}: {e!r}')
        got = ctx.sut(what, root.evaluate, linked)
        ctx.require(got.index.equals(root.index), lambda: f'{what} has the index {list(got.index)}')
        other = ctx.sut(f'evaluate({source!r}) with plain columns', plain.evaluate, source)
        require_list(ctx, f'{what}, compared with plain columns', list(got), list(other))
        ctx.require(got.dtype == other.dtype, lambda: f'{what} has dtype {got.dtype} instead of {other.dtype}')
        require_list(ctx, what, list(got), expected, abs_=tol)
        ctx.label('expressions')
        ctx.label('linked terms', len(used))
        ctx.label_if(len(used) > 1, 'several linked terms')
        ctx.label_if(any(t['func'] for t in used), 'with aggregation')
        ctx.label_if(any(len(t['path']) > 1 for t in used), 'with chains')
        if used and len(set(map(str, expected))) > 1:
            ctx.nontrivial = True


# --------------------------------------------------------------------------------------------------------------- pivots

@st.composite
def pivot_cases(draw, tier):
    schema = draw_schema(draw, tier)
    tame(schema)
    terms = draw_terms(draw, schema, draw(st.integers(1, 4)))
    schema['terms'] = bare(terms)
    leaves = root_leaves(schema)
    items = [[t['token'], t['leaf'].kind] for t in terms] + [[x.src, x.kind] for x in leaves]
    numbers = [i for i, k in items if k != 'text']
    groups = [i for i, k in items if k != 'float']
    if terms and draw(st.booleans()):
        g = Gen(draw, [x for x in leaves + [t['leaf'] for t in terms] if x.kind != 'text'], functions=False)
        if g.numbers or g.bools:
            node = g.boolean(1) if draw(st.booleans()) else g.exact(2)
            if any(t['token'] in node.src for t in terms):
                numbers += [node.src] * 2
    if not numbers or not groups:
        numbers, groups = ['T0_'], ['T0_']
    # A name can be used for one thing only
    used = []

    def take(options, n):
        options = [o for o in options if o not in used]
        got = draw(st.lists(st.sampled_from(options), min_size=min(1, n), max_size=n, unique=True)) if options else []
        used.extend(got)
        return got
    index = take(groups, 2)
    values = take(numbers, draw(st.sampled_from([1, 2, 3])))
    columns = take(groups, draw(st.sampled_from([1, 2, 2]))) if draw(st.booleans()) else []
    schema['pivot'] = {'values': values, 'index': index, 'columns': columns, 'scalar': draw(st.integers(0, 7)),
                       'aggfunc': draw(st.sampled_from([None, 'sum', 'count', 'max', 'mean', 'min', 'first'])),
                       'fill': draw(st.sampled_from([None, None, 0]))}
    return schema


def run_pivot(case, ctx):
    import pandas as pd
    from pandas.testing import assert_frame_equal
    fs = frames.build(case, ctx)
    root = fs[0]
    spec = case['pivot']
    if not spec['values'] or not spec['index'] or len(root) == 0:
        return
    tokens = {t['token'] for t in case['terms']}
    if any(re.search(r'\bT\d_', x) and not set(re.findall(r'\bT\d_', x)) <= tokens for x in
           spec['values'] + spec['index'] + spec['columns']):
        return
    values = materialise(case, fs, case['terms'], ctx)
    names = {x: with_terms(case, x, case['terms']) for x in spec['values'] + spec['index'] + spec['columns']}
    if len(set(names.values())) < len(names):
        return
    from cheval import LinkedDataFrame
    data = {}
    plain = None
    for x, name in names.items():
        if x in values:
            s = values[x]
        elif x in root.columns:
            s = root[x]
        else:
            if plain is None:
                hidden = [case['links'][no]['name'] for no in links_of(case, 0)]
                plain = LinkedDataFrame(pd.DataFrame(
                    {**{c: root[c] for c in root.columns if c not in hidden}, **values}, index=root.index))
            s = ctx.sut(f'evaluate({x!r})', plain.evaluate, x)
        if any(is_missing(v) for v in s) and x not in spec['values']:
            return
        if len(s) and isinstance(s.iloc[0], str) and not any(s):
            return
        data[name] = s

    def shape(items, bit):
        items = [names[x] for x in items]
        return items[0] if len(items) == 1 and spec['scalar'] >> bit & 1 else items
    kwargs = {'values': shape(spec['values'], 0), 'index': shape(spec['index'], 1)}
    if spec['columns']:
        kwargs['columns'] = shape(spec['columns'], 2)
    if spec['aggfunc']:
        kwargs['aggfunc'] = spec['aggfunc']
    if spec['fill'] is not None:
        kwargs['fill_value'] = spec['fill']
    frame = pd.DataFrame({k: pd.Series(s.array, index=range(len(root))) for k, s in data.items()})
    try:
        expected = frame.pivot_table(**kwargs)
    except Exception:
        ctx.label('pivots which pandas refuses')
        return
    got = ctx.sut(f'pivot_table({kwargs})', root.pivot_table, **kwargs)
    try:
        assert_frame_equal(pd.DataFrame(got), expected, **LOOSE)
    except AssertionError as e:
        ctx.fail(f'pivot_table({kwargs}) differs from that of a frame with the columns {data}: {str(e)[:400]}')
    ctx.label('pivots')
    for role in ('values', 'index', 'columns'):
        ctx.label_if(any('T' in x and any(t in x for t in tokens) for x in spec[role]), 'linked ' + role)
    ctx.nontrivial = any(t in x for t in tokens for x in names) and expected.size > 1


# --------------------------------------------------------------------------------------------------------- choice models

@st.composite
def model_cases(draw, tier):
    n_units = draw(st.integers(1, 5))
    n_choices = draw(st.integers(2, 4))
    case = {'units': draw(models.unit_labels(n_units, n_units)), 'tables': [], 'exprs': []}
    choices = draw(st.permutations(['A', 'B', 'C', 'D', 'car', 'x y']))[:n_choices]
    case['choices'] = list(choices)
    leaves, all_terms, pairs = [], [], []
    for no, (name, by_choice) in enumerate(draw(st.sampled_from([[('tu', 0)], [('tc', 1)], [('tu', 0), ('tc', 1)],
                                                                [('t', 0), ('tt', 1)], [('t', 0), ('t2', 0)]]))):
        n = n_choices if by_choice else n_units
        depth = draw(st.sampled_from([1, 1, 2]))
        schema = draw(frames.schemas(tier, topologies(draw, depth), max_n=max(n, 4), kinds=['i8', 'i4', 'i1', '?', 'f8', 'text'],
                                     value_names=NAMES, link_names=LINK_NAMES, key_named_links=False, max_cols=3,
                                     max_levels=2, free_root=True, root_rows=n))
        tame(schema, True)
        terms = draw_terms(draw, schema, draw(st.integers(1, 4)), True, 'TU'[no], pairs)
        cols = root_leaves(schema, name + '.')
        leaves += cols
        for t in terms:
            t['leaf'].src = t['token']
        leaves += [t['leaf'] for t in terms] * 3
        case['tables'].append({'name': name, 'by_choice': by_choice, 'schema': schema, 'terms': bare(terms)})
        all_terms += terms
    leaves = [x for x in leaves if not x.nan]
    for _ in range(draw(st.integers(1, 4))):
        g = Gen(draw, leaves, functions=False, nan_words=False)
        if draw(st.booleans()):
            node = g.exact(draw(st.integers(1, 3)))
            case['exprs'].append(f'{1 / max(1.0, node.max):.6f} * ({node.src})')
        else:
            node = g.boolean(draw(st.integers(1, 3)))
            case['exprs'].append(f'where({node.src}, 0.75, -0.25)')
    for pair in pairs[:2]:
        for t in pair:
            if t['leaf'].kind == 'bool':
                case['exprs'].append(f'where({t["token"]}, 0.5, -0.25)')
            elif t['leaf'].kind != 'text':
                case['exprs'].append(f'{1 / max(1.0, t["leaf"].max):.6f} * ({t["token"]})')
    case['order'] = draw(st.permutations(range(len(case['exprs']))))
    case['threads'] = draw(st.sampled_from([1, 2]))
    return case


def run_model(case, ctx):
    import pandas as pd
    from cheval import ChoiceModel
    units = models.make_units(case['units'])
    results = []
    sources = []
    for linked in (True, False):
        m = ChoiceModel()
        m.add_choices(case['choices'])
        m.decision_units = units
        texts = list(case['exprs'])
        data = {}
        for t in case['tables']:
            schema = t['schema']
            index = m.choices if t['by_choice'] else units
            fs = frames.build(schema, ctx, root_index=index)
            values = materialise(schema, fs, t['terms'], ctx)
            if any(len(v) and isinstance(v.iloc[0], str) and not any(v) for v in values.values()):
                return
            if linked:
                table = fs[0]
            else:
                table = pd.DataFrame({**{c: pd.DataFrame.__getitem__(fs[0], c) for c in fs[0].columns}, **values}, index=index)
            for term in t['terms']:
                replacement = t['name'] + '.' + (term_source(schema, term) if linked else term['token'])
                texts = [re.sub(r'\b' + term['token'] + r'\b', lambda mm: replacement, x) for x in texts]
            data[t['name']] = (table, t['by_choice'], fs)
        for name, (table, by_choice, _) in data.items():
            m.declare_table(name, int(by_choice))
        for i in (case['order'] if linked else range(len(texts))):
            ctx.sut(f'appending {texts[i]!r}', m.expressions.append, texts[i])
        used = set(re.findall(r'[A-Za-z_]\w*', ' '.join(re.sub(r"'[^']*'|\"[^\"]*\"", ' ', x) for x in texts)))
        for name, (table, _, _) in data.items():
            if name in used:
                ctx.sut(f'assigning {name!r}', m.__getitem__(name).assign, table)
        sources.append(texts)
        try:
            p, ls = m.run_stochastic(n_threads=case["threads"])[:2]
            results.append((p, ls, None))
        except Exception as e:
            results.append((None, None, e))
    (p1, ls1, e1), (p2, ls2, e2) = results
    what = f'run_stochastic() with {sources[0]}'
    if e2 is not None:
        raise HarnessError(f'the model with plain columns fails: {e2!r} {sources[1]}')
    if e1 is not None:
        ctx.fail(f'{what}: {type(e1).__name__}: {e1}, but not with {sources[1]}')
    for i, (a, b) in enumerate(zip(p1.to_numpy().ravel(), p2.to_numpy().ravel())):
        ctx.require(same_value(a, b, 1e-9, 1e-12), lambda: f'{what}: probabilities {p1.to_numpy().tolist()}, but '
                                                          f'{p2.to_numpy().tolist()} with plain columns {sources[1]}')
    require_list(ctx, f'{what}: logsums, compared with plain columns', list(ls1), list(ls2), rel=1e-9, abs_=1e-9)
    tokens = [term['token'] for t in case['tables'] for term in t['terms']]
    n_used = sum(bool(re.search(r'\b' + t + r'\b', ' '.join(case['exprs']))) for t in tokens)
    ctx.label('runs')
    ctx.label('linked terms', n_used)
    ctx.label_if(any(t['by_choice'] for t in case['tables']), 'table by choice')
    ctx.nontrivial = n_used > 0


# ------------------------------------------------------------------------------------------------------- many linked terms

@st.composite
def crowd_cases(draw, tier):
    base = draw(st.sampled_from(['L', 'hh', 'a_', 'x']))
    names = [base, base + draw(st.sampled_from(['1', '2', '_', '_1', '0']))]
    n = draw(st.integers(1, 5))
    terms = []
    sizes = draw(st.sampled_from([[12, 3], [23, 3], [14, 12], [3, 12], [2, 2]]))  # NumExpr has up to 31 inputs
    for no, size in enumerate(sizes):
        for c in draw(st.permutations(range(draw(st.sampled_from([size, max(size - 1, 1)]))))):
            terms.append([no, c, draw(st.integers(-4, 4)), draw(st.sampled_from(['', '', 'sum', 'count', 'twice']))])
    return {'names': names, 'n': n, 'keys': [[draw(st.integers(0, 5)) for _ in range(n)] for _ in range(2)],
            'terms': list(draw(st.permutations(terms))), 'seed': draw(st.integers(0, 10 ** 6)), 'agg': draw(st.sampled_from([0, 1, 2])),
            'order': draw(st.permutations(range(6)))}


def run_crowd(case, ctx):
    import random
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel, LinkedDataFrame
    rng = random.Random(case['seed'])
    n = case['n']
    root = LinkedDataFrame({'k0': case['keys'][0], 'k1': case['keys'][1], 'row': list(range(n))})
    values, own = [], []
    for no, name in enumerate(case['names']):
        cols = [[rng.randint(-9, 9) for _ in range(6)] for _ in range(24)]
        if case['agg'] == no:  # A table with two rows for each of the root's
            other = pd.DataFrame({**{f'c{c}': (v * n)[:2 * n] for c, v in enumerate(cols)}, 'key': [i % n for i in range(2 * n)]})
            ctx.sut('link_to', root.link_to, LinkedDataFrame(other), name, on_self='row', on_other='key')
            values.append([[(v * n)[:2 * n][i] for i in range(2 * n)] for v in cols])
        else:
            other = pd.DataFrame({f'c{c}': v for c, v in enumerate(cols)}).assign(key=case['order'])
            ctx.sut('link_to', root.link_to, other, name, on_self=f'k{no}', on_other='key')
            values.append(cols)
    pieces, expected = [], np.zeros(n)
    for no, c, factor, func in case['terms']:
        name, v = case['names'][no], values[no][c]
        if case['agg'] == no:
            func = func or 'sum'
            if func == 'twice':
                pieces.append(f'{factor} * {name}.sum(c{c} * 2)')
                each = [2 * (v[i] + v[i + n]) for i in range(n)]
            elif func == 'count':
                pieces.append(f'{factor} * {name}.sum(c{c} > 0)')
                each = [(v[i] > 0) + (v[i + n] > 0) for i in range(n)]
            else:
                pieces.append(f'{factor} * {name}.sum(c{c})')
                each = [v[i] + v[i + n] for i in range(n)]
        else:
            pieces.append(f'{factor} * {name}.c{c}')
            each = [v[case['order'].index(k)] for k in case['keys'][no]]
        expected += factor * np.array(each, dtype='f8')
    source = ' + '.join(pieces)
    got = ctx.sut(f'evaluate({source!r})', root.evaluate, source)
    require_list(ctx, f'evaluate({source!r})', list(got), expected.tolist())
    # The same of a choice model's table, scaled so that exponents are small
    m = ChoiceModel()
    m.add_choices(['A', 'B'])
    m.decision_units = root.index
    m.declare_table('root', 0, mandatory_attributes={'row'})
    ctx.sut('assign', m['root'].assign, root)
    scaled = '(' + re.sub(r'\b(' + '|'.join(case['names']) + r')\.', r'root.\1.', source) + ') * 0.0009765625'
    m.expressions.append(scaled)
    _, top, _ = ctx.sut(f'a run with {scaled!r}', m.run_stochastic)
    require_list(ctx, f'logsums of a run with {scaled!r}', list(np.log(np.asarray(top.values) / 2)), (expected / 1024).tolist(), abs_=1e-12)
    ctx.label('terms of a link', max(sum(t[0] == no for t in case['terms']) for no in range(2)))
    ctx.nontrivial = True


PARTS = [Part('expressions', eval_cases, run_eval, 1200, 24000), Part('pivots', pivot_cases, run_pivot, 700, 12000),
         Part('crowds', crowd_cases, run_crowd, 120, 2500),
         Part('models', model_cases, run_model, 500, 8000)]
