"""C15: a link aggregation reduces exactly the matching rows"""
import copy
import math

from hypothesis import strategies as st

from harness import frames, large
from harness.core import HarnessError, is_missing, require_list, same_value
from harness.exprs import Gen, Leaf, PyExpr, tolerance
from harness.part import Part

NUMERIC = ['sum', 'max', 'min', 'mean', 'median', 'prod', 'std', 'var', 'quantile']
OTHERS = ['count', 'first', 'last', 'nth']
NAMES = ['v', 'w', 'x1', 'area', 'b2', 'n_', 'val']
KINDS = ['i8', 'i4', 'i1', 'u1', 'f8', 'f8', 'f4', '?', '?', 'text', 'textn', 'cat', 'catn', 'date', 'obj']
LEAF_KINDS = {'i4': ('int', 9, 0), 'i1': ('int', 9, 0), 'u1': ('uint', 255, 0), 'f8': ('float', 10, 2), 'f4': ('f4', 10, 2),
              '?': ('bool', 1, 0)}


@st.composite
def keywords(draw, func):
    kw = {}
    if func == 'quantile' and draw(st.booleans()):
        kw['q'] = draw(st.sampled_from([0.0, 0.25, 0.5, 0.9, 1.0]))
        if draw(st.booleans()):
            kw['interpolation'] = draw(st.sampled_from(['linear', 'lower', 'higher', 'midpoint']))
    elif func in ('std', 'var') and draw(st.sampled_from([0, 0, 1])):
        kw['ddof'] = 0
    elif func == 'nth' and draw(st.sampled_from([0, 1, 1])):
        kw['n'] = draw(st.sampled_from([0, 0, 1, 2, -1, -2]))
    elif func == 'sum' and draw(st.sampled_from([0, 0, 0, 1])):
        kw['min_count'] = draw(st.sampled_from([1, 2]))
    if draw(st.sampled_from([0, 0, 1])):
        kw['int_fill'] = draw(st.sampled_from([0, -99, 5, -1]))
    return kw


@st.composite
def plain_expr(draw, leaves):
    """Something which DataFrame.eval() and Python agree about"""
    names = [x.src for x in leaves if x.kind not in ('bool', 'uint')]
    if not names:
        names = [x.src for x in leaves if x.kind == 'bool'] or ['True']
        return f'{draw(st.sampled_from(names))} {draw(st.sampled_from(["&", "|"]))} {draw(st.sampled_from(names))}'
    a, b = draw(st.sampled_from(names)), draw(st.sampled_from(names))
    c = draw(st.integers(1, 3))
    return draw(st.sampled_from([f'{a} * {c}', f'{a} > {c}', f'({a} > {c}) & ({b} < {c + 2})', f'{a} + {b} * {c}',
                                 f'{a} <= {b}', f'{a} != {b}', f'({a} - {b}) / {c}', f'{a} > {b} or {b} > {c}']))


@st.composite
def cases(draw, tier):
    depth = draw(st.sampled_from([0, 0, 0, 1, 2]))
    topology = [[i, i + 1, False] for i in range(depth)] + [[depth, depth + 1, True]]
    if draw(st.sampled_from([0, 0, 1])):
        topology.append([depth + 1, depth + 2, False])  # So that the rows to be reduced have a link themselves
    schema = draw(frames.schemas(tier, topology, max_n=7 if tier == 'quick' else 16, kinds=KINDS, value_names=NAMES,
                                 max_cols=4, key_named_links=False))
    target = schema['tables'][depth + 1]
    path = list(range(depth + 1))
    leaves = []
    for name, kind, values, _ in target['cols']:
        if kind in LEAF_KINDS:
            k, m, frac = LEAF_KINDS[kind]
            leaves.append(Leaf(name, k, float(m), frac, None in values))
    chained = ''
    if len(topology) > depth + 1 and schema['links'][depth + 1]['name'].isidentifier():
        far = schema['tables'][depth + 2]
        filled = None in frames.follow(schema, [depth + 1])
        for name, kind, values, _ in far['cols']:
            if kind in LEAF_KINDS:
                k, m, frac = LEAF_KINDS[kind]
                chained = schema['links'][depth + 1]['name'] + '.' + name
                leaves.append(Leaf(chained, k, float(m), frac, None in values or filled))
    calls = []
    for _ in range(draw(st.integers(1, 6))):
        what = draw(st.sampled_from(['col', 'col', 'col', 'expr', 'expr', 'expr', 'none']))
        func = draw(st.sampled_from(NUMERIC + OTHERS))
        if what == 'none':
            expr, tol = None, 0.0
        elif what == 'expr' and draw(st.integers(0, 7)) == 0:
            expr, tol = draw(st.sampled_from(['2.5', '-3', '(2)', 'True', '0.25 * 3', '1 > 2', '5000000000', '2 ** 3'])), 0.0
        elif what == 'expr' and any(target['linked'] or x.kind != 'uint' for x in leaves):
            if target['linked']:
                g = Gen(draw, leaves)
                node = getattr(g, draw(st.sampled_from(['number', 'boolean', 'exact'])))(draw(st.integers(1, 3)))
                expr, tol = node.src, tolerance(node)
            else:
                expr, tol = draw(plain_expr([x for x in leaves if '.' not in x.src])), 1e-12
        else:
            what = 'col'
            names = [c[0] for c in target['cols']] + [k[0] for k in target['keys'] if isinstance(k[0], str)]
            expr, tol = draw(st.sampled_from(names)), 0.0
        calls.append({'what': what, 'func': func, 'expr': expr, 'tol': tol, 'kw': draw(keywords(func)),
                      'style': draw(st.integers(0, 3))})
    schema['path'], schema['calls'] = path, calls
    schema['from'] = draw(st.integers(0, depth))
    schema['update'] = None
    if target['n'] > 1 and draw(st.booleans()):
        schema['update'] = [draw(st.sampled_from(['values', 'rows'])), draw(st.permutations(range(target['n'])))]
    return schema


def quantile(values, q, interpolation):
    values = sorted(values)
    at = q * (len(values) - 1)
    lo, hi = math.floor(at + 1e-12), math.ceil(at - 1e-12)
    a, b = float(values[lo]), float(values[hi])
    return {'linear': a + (b - a) * (at - lo), 'lower': a, 'higher': b, 'midpoint': (a + b) / 2}[interpolation]


MISSING = object()


def reduce(func, values, kw):
    """The reduction of the values of a group, None for a missing result, MISSING if there isn't any"""
    present = [v for v in values if v is not None]
    n = len(present)
    if func == 'count':
        return n
    if func == 'nth':
        at = kw.get('n', 1)
        if at >= len(values) or at < -len(values):
            return MISSING
        return values[at]
    if func in ('first', 'last'):
        return present[0 if func == 'first' else -1] if present else None
    if func == 'sum':
        return None if n < kw.get('min_count', 0) else sum(present)
    if func == 'prod':
        return math.prod(present)
    if not present:
        return None
    if func == 'max':
        return max(present)
    if func == 'min':
        return min(present)
    if func == 'mean':
        return sum(present) / n
    if func == 'median':
        return quantile(present, 0.5, 'linear')
    if func == 'quantile':
        return quantile(present, kw.get('q', 0.5), kw.get('interpolation', 'linear'))
    ddof = kw.get('ddof', 1)
    if n <= ddof:
        return None
    mean = sum(present) / n
    var = sum((v - mean) ** 2 for v in present) / (n - ddof)
    return var if func == 'var' else math.sqrt(var)


def column_of(case, name):
    """(kind, values) of a column of the table to be reduced, or of one linked to it"""
    links = case['links']
    t = links[case['path'][-1]]['dst']
    if '.' not in name:
        return frames.table_column(case['tables'][t], name)
    link_no = len(case['path'])
    far = case['tables'][links[link_no]['dst']]
    kind, values = frames.table_column(far, name.split('.', 1)[1])
    fill = frames.DEFAULT_FILLS[kind]
    return kind, [fill if p is None else values[p] for p in frames.follow(case, [link_no])]


def operand(case, call, target, ctx):
    """(kind class, values, kind) of what is to be reduced"""
    t = case['tables'][case['links'][case['path'][-1]]['dst']]
    if call['what'] == 'none':
        return 'int', [1] * t['n'], 'i8'
    if call['what'] == 'col':
        kind, values = frames.table_column(t, call['expr'])
        cls = {'?': 'bool', 'f8': 'float', 'f4': 'float'}.get(kind, 'int' if kind in frames._DTYPES else 'other')
        return cls, values, kind
    try:
        py = PyExpr(call['expr'])
        rows = []
        names = [c[0] for c in t['cols']]
        link = case['links'][len(case['path'])] if len(case['links']) > len(case['path']) else None
        data = {n: column_of(case, n)[1] for n in names}
        if link is not None:
            far = case['tables'][link['dst']]
            for c in far['cols']:
                data[link['name'] + '.' + c[0]] = column_of(case, link['name'] + '.' + c[0])[1]
        for i in range(t['n']):
            env = {n: (math.nan if v[i] is None else v[i]) for n, v in data.items() if '.' not in n}
            for no, (chain, _) in enumerate(py.chains):
                v = data['.'.join(chain)][i]
                env[f'__chain_{no}'] = math.nan if v is None else v
            rows.append(py(env))
    except Exception as e:
        raise HarnessError(f'the oracle cannot evaluate {call["expr"]!r}: {e!r}')
    if t['linked']:
        got = ctx.sut(f'evaluate({call["expr"]!r})', target.evaluate, call['expr'])
    else:
        got = ctx.sut(f'eval({call["expr"]!r})', target.eval, call['expr'])
    kind = {'b': 'bool', 'i': 'int', 'u': 'int', 'f': 'float'}[got.dtype.kind]
    rows = [None if is_missing(r) else (float(r) if kind == 'float' else bool(r) if kind == 'bool' else int(r)) for r in rows]
    single = kind == 'float' and got.dtype.itemsize == 4
    return kind, rows, 'f4' if single else 'expr' if got.dtype.kind in 'fb' or got.dtype == 'i8' else 'small'


def tolerances(func, kind, tol, values):
    """Relative and absolute, for a group of values"""
    scale = max([1.0] + [abs(float(v)) for v in values if v is not None and not math.isinf(v)])
    n = max(1, len(values))
    rel, rounding = 1e-9, tol * 4 * n
    if func == 'prod':
        rounding *= scale ** n
    elif func in ('std', 'var'):
        rounding = math.sqrt(rounding) * scale if func == 'std' else rounding * scale
        rounding = max(rounding, 1e-9 * scale ** 2)
    elif func in ('mean', 'median', 'quantile', 'sum'):
        rounding = max(rounding, 1e-9 * scale)
    if kind == 'f4':
        rel, rounding = 2e-4, max(rounding, 2e-4 * scale ** 2)
    return rel, rounding


def run(case, ctx):
    fs = frames.build(case, ctx)
    check_calls(case, ctx, fs)
    if case['update'] is None:
        return
    # Aggregations are of the values which the target has by now
    case = copy.deepcopy(case)
    t = case['links'][case['path'][-1]]['dst']
    frame, table = fs[t], case['tables'][t]
    ctx.label('update of ' + case['update'][0])
    if case['update'][0] == 'rows':
        ctx.sut(f'sorting T{t} in place', frames.put_in_order, frame, case['update'][1])
        frames.reorder(case, t, case['update'][1])
        for f, other in zip(fs, case['tables']):
            if other['linked']:
                ctx.sut('compute_indexers()', f.compute_indexers)
    else:
        for col in table['cols']:
            if col[0] not in [l['name'] for l in case['links'] if l['src'] == t]:
                col[2] = [col[2][k] for k in case['update'][1]]
                ctx.sut(f'setting column {col[0]!r} of T{t}', frame.__setitem__, col[0], frames.make_array(col[1], col[2]))
    check_calls(case, ctx, fs)


def check_calls(case, ctx, fs):
    links = case['links']
    path = case['path'][case['from']:]
    target = fs[links[path[-1]]['dst']]
    root = fs[links[path[0]]['src']]
    m = frames.matches(links[path[-1]])
    if len(path) > 1:
        groups = [[] if p is None else m[p] for p in frames.follow(case, path[:-1])]
    else:
        groups = m
    for call in case['calls']:
        check_call(case, ctx, call, path, root, target, groups, fs)


def check_call(case, ctx, call, path, root, target, groups, fs):
    links = case['links']
    func, kw = call['func'], call['kw']
    text = ', '.join(([] if call['expr'] is None else [repr(call['expr'])]) + [f'{k}={v!r}' for k, v in kw.items()])
    what = 'T%d' % links[path[0]]['src'] + ''.join('.' + links[n]['name'] for n in path) + f'.{func}({text})'

    def go():
        node = root
        for no in path:
            node = frames.access(node, links[no]['name'], call['style'] & 1)
        reduction = getattr(node, func)
        s = reduction(**kw) if call['expr'] is None else reduction(expr=call['expr'], **kw) if call['style'] & 2 else \
            reduction(call['expr'], **kw)
        return s, list(s.array), s.dtype

    cls, values, kind = operand(case, call, target, ctx)
    if cls == 'other' and (func in NUMERIC or kind == 'date'):
        ctx.refused(what, Exception, go)
        ctx.label('refused non-numeric operand')
        return
    if cls == 'other' and kind == 'obj' and call['expr'] not in [c[0] for c in case['tables'][links[path[-1]]['dst']]['cols']] \
            and any(not isinstance(v, str) for v in values if v is not None):
        ctx.label('mixed keys left out')
        return
    if cls == 'bool' and func == 'quantile':
        return  # pandas does not have these
    if 'min_count' in kw and cls != 'float':
        return
    big = cls in ('int', 'float') and any(v is not None and 2 ** 31 < abs(v) < math.inf for v in values)
    if big and func not in ('max', 'min', 'count', 'first', 'last', 'nth'):
        return
    int_fill = kw.get('int_fill', -1)
    none = math.nan if cls == 'float' or cls == 'other' else int_fill
    if func == 'count':
        none = int_fill
    elif cls == 'bool' and func in ('max', 'min', 'first', 'last', 'nth'):
        none = False
    expected = []
    for g in groups:
        r = reduce(func, [values[i] for i in g], kw) if g else MISSING
        if r is not MISSING and cls in ('int', 'bool') and r is not None and func in ('sum', 'prod') and abs(r) >= 2 ** 53:
            return
        expected.append(r)
    s, got, dtype = ctx.sut(what, go)
    ctx.require(s.index.equals(root.index), lambda: f'{what} has the index {list(s.index)}')
    ctx.require(len(got) == len(expected), lambda: f'{what} has {len(got)} values instead of {len(expected)}')
    exact = cls in ('int', 'bool', 'other') and func in ('max', 'min', 'count', 'first', 'last', 'nth', 'sum', 'prod')
    for i, (g, e) in enumerate(zip(got, expected)):
        rel, rounding = tolerances(func, kind, call['tol'], [values[j] for j in groups[i]] if cls != 'other' else [])
        if e is MISSING:
            ok = same_value(g, none)
        elif e is None:
            # A reduction without a value can be missing, or filled
            ok = is_missing(g) or same_value(g, none)
        else:
            ok = same_value(g, e, *((0, 0) if exact else (rel, rounding)))
            if not ok and kind == 'expr' and cls == 'float' and math.isinf(e):
                ok = same_value(g, e) or is_missing(g)
            if not ok and any(v is not None and math.isinf(v) for v in values if cls == 'float'):
                ok = True
        if not ok:
            shown = ['(fill %r)' % (none,) if x is MISSING else x for x in expected]
            ctx.fail(f'{what}: at row {i} got {g!r}, expected {shown[i]!r} (all: got {got}, expected {shown}, '
                     f'rows {groups[i]} of {values})')
    if exact and cls != 'other' and not any(e is None for e in expected) and expected:
        if kind in ('i8', '?', 'expr') and (all(e is not MISSING for e in expected) or func in ('sum', 'max', 'min', 'count')):
            ctx.require(dtype.kind in 'iub', lambda: f'{what} has dtype {dtype}')
    ctx.label(func)
    ctx.label('operand ' + cls)
    ctx.label_if(call['what'] == 'expr', 'expression')
    ctx.label_if(call['what'] == 'expr' and '.' in call['expr'] and any(
        c.isalpha() for c in call['expr'].split('.')[1][:1]), 'expression with a link')
    ctx.label_if(len(path) > 1, 'at the end of a chain')
    ctx.label_if(any(e is MISSING for e in expected), 'rows without matches')
    ctx.label_if(any(None in r for r in links[path[-1]]['dst_keys']), 'missing keys in the target')
    ctx.label_if(any(None in r for n_ in path for r in links[n_]['src_keys']), 'missing keys in the source')
    if any(len(g) > 1 for g in groups) and len({tuple(g) for g in groups if g}) > 1:
        ctx.nontrivial = True


PARTS = [
    Part('aggregations', cases, run, 2400, 40000),
    Part('large', lambda tier: large.large_cases(tier, True), large.run_large, 60, 1500),
]
