"""C08: expressions mean what their Python source says, or are refused cleanly"""
import math

from hypothesis import strategies as st

from harness import exprs, models
from harness.core import HarnessError, require_list, same_value
from harness.exprs import Gen, Leaf, PyExpr, tolerance
from harness.part import Part

TEXTS = ['a', 'ab', 'abc', '', 'b c', 'Z', 'x    y', 'x y', 'a.b', '){', ', #']
COLUMN_NAMES = ['x', 'y', 'a1', 'a10', 'e', 'nanny', 'none_', 'notx', 'andy', 'i', 'Value', '_u', 'where_', 'sq', 'ab1', 'na', 'null', 'nil']
KINDS = ['int', 'int', 'i4', 'i1', 'uint', 'float', 'float', 'fnan', 'f4', 'bool', 'bool', 'text', 'texts_missing', 'cat']


def column_values(kind, n):
    if kind in ('int', 'i4', 'i1'):
        return st.lists(st.integers(-8, 8), min_size=n, max_size=n)
    if kind == 'uint':
        return st.lists(st.integers(0, 8), min_size=n, max_size=n)
    if kind in ('float', 'f4'):
        return st.lists(st.integers(-64, 64).map(lambda k: k / 8), min_size=n, max_size=n)
    if kind == 'fnan':
        return st.lists(st.one_of(st.just(None), st.integers(-64, 64).map(lambda k: k / 8)), min_size=n, max_size=n)
    if kind == 'bool':
        return st.lists(st.booleans(), min_size=n, max_size=n)
    if kind == 'texts_missing':
        return st.lists(st.sampled_from(TEXTS + [None, None]), min_size=n, max_size=n).filter(
            lambda x: any(v is not None for v in x))
    return st.lists(st.sampled_from(TEXTS), min_size=n, max_size=n)


def leaf_of(name, kind):
    k = {'int': 'int', 'i4': 'int', 'i1': 'int', 'uint': 'uint', 'float': 'float', 'fnan': 'float', 'f4': 'f4',
         'bool': 'bool'}.get(kind, 'text')
    return Leaf(name, k, 8.0, 0 if k in ('int', 'uint') else 3, kind == 'fnan', TEXTS)


def make_series(kind, values, index):
    import numpy as np
    import pandas as pd
    dtype = {'int': 'i8', 'i4': 'i4', 'i1': 'i1', 'uint': 'u1', 'float': 'f8', 'fnan': 'f8', 'f4': 'f4',
             'bool': '?'}.get(kind)
    if dtype is not None:
        return pd.Series(np.array([math.nan if v is None else v for v in values], dtype=dtype), index=index)
    s = pd.Series(np.array(values, dtype=object), index=index)
    return s.astype('category') if kind == 'cat' else s


def row_value(kind, v):
    if v is None:
        return '' if kind == 'texts_missing' else math.nan
    return v


@st.composite
def eval_cases(draw, tier):
    n = draw(st.integers(1, 5))
    names = draw(st.lists(st.sampled_from(COLUMN_NAMES), min_size=1, max_size=6, unique=True))
    cols = []
    for name in names:
        kind = draw(st.sampled_from(KINDS))
        values = draw(column_values(kind, n))
        if kind == 'cat' and all(v == '' for v in values):
            values[0] = 'a'
        if kind in ('text', 'texts_missing') and not any(values):
            values[0] = 'a'  # An array of text needs some width
        cols.append([name, kind, values])
    local = []
    for name in draw(st.lists(st.sampled_from(['loc', 'arr', 'L2']), max_size=2, unique=True)):
        kind = draw(st.sampled_from(['scalar', 'int', 'float', 'bool']))
        if kind == 'scalar':
            local.append([name, kind, [draw(st.integers(-64, 64)) / 8] * n])
        else:
            local.append([name, kind, draw(column_values(kind, n))])
    leaves = [leaf_of(name, kind) for name, kind, _ in cols]
    leaves += [Leaf(name, 'float' if kind == 'scalar' else kind, 8.0, 0 if kind == 'int' else 3) for name, kind, _ in local]
    g = Gen(draw, leaves)
    want = draw(st.sampled_from(['number', 'number', 'boolean', 'exact']))
    depth = draw(st.integers(1, 5 if tier == 'thorough' else 4))
    node = getattr(g, want)(depth)
    src = draw(st.sampled_from(['', '', ' '])).strip() + node.src + draw(st.sampled_from(['', '', ' ', '  # note']))
    single = any(k == 'f4' for _, k, _ in cols)
    tol = 0.0 if want == 'boolean' else tolerance(node)
    return {'cols': cols, 'local': local, 'n': n, 'src': src, 'tol': 1e-4 * max(node.max, 1.0) if single and want != 'boolean'
            else tol, 'index': draw(models.unit_labels(n, n)), 'out': draw(st.sampled_from(['', '', '', 'f8', 'f8', 'f4', 'i8', 'i4', '?'])),
            'strict': draw(st.booleans()),
            'want': want, 'repeat': draw(st.sampled_from([1] * 60 + [50, 900, 4000]))}


def snapshot(frame):
    return ([str(c) for c in frame.columns], list(frame.index), [str(d) for d in frame.dtypes],
            {c: list(frame[c]) for c in frame.columns}, list(frame._link_names()) if hasattr(frame, '_link_names') else [])


def same_snapshot(a, b):
    return a[:3] == b[:3] and a[4] == b[4] and all(
        len(a[3][c]) == len(b[3][c]) and all(same_value(x, y) for x, y in zip(a[3][c], b[3][c])) for c in a[3])


def build_frame(case):
    import pandas as pd
    from cheval import LinkedDataFrame
    index = models.make_units(case['index'])
    return LinkedDataFrame(pd.DataFrame({name: make_series(kind, values, index) for name, kind, values in case['cols']},
                                        index=index))


def run_eval(case, ctx):
    import numpy as np
    import pandas as pd
    repeat = case.get('repeat', 1)
    small = case['n']
    if repeat > 1:
        # The same rows over and over again, in a frame too large to be evaluated in one piece
        n = small * repeat
        case = dict(case, n=n, index={'kind': 'range', 'labels': list(range(n))},
                    cols=[[name, kind, values * repeat] for name, kind, values in case['cols']],
                    local=[[name, kind, values * repeat] for name, kind, values in case['local']])
    frame = build_frame(case)
    before = snapshot(frame)
    local = {}
    for name, kind, values in case['local']:
        local[name] = values[0] if kind == 'scalar' else np.array(values, dtype={'int': 'i8', 'float': 'f8', 'bool': '?'}[kind])
    try:
        py = PyExpr(case['src'])
        expected = []
        for i in range(small):
            env = {name: row_value(kind, values[i]) for name, kind, values in case['cols']}
            env.update({name: values[i] for name, kind, values in case['local']})
            expected.append(py(env))
        expected *= repeat
    except Exception as e:
        raise HarnessError(f'the oracle cannot evaluate {case["src"]!r}: {e!r}')
    kwargs = {'local_dict': dict(local)} if local else {}
    out = None
    if case['out'] and py.names:
        dtype = ctx.sut(f'evaluate({case["src"]!r})', frame.evaluate, case['src'], **kwargs).dtype
        if dtype.kind not in 'fib':
            case = dict(case, out='')
    if case['out'] and py.names:
        out = pd.Series(np.zeros(case['n'], dtype=case['out']), index=frame.index)
        kwargs['out'] = out
        if case['strict']:
            kwargs['allow_casting'] = False
        if not np.can_cast(dtype, out.dtype, 'safe' if case['strict'] else 'same_kind'):
            ctx.refused(f'evaluate({case["src"]!r}) (of type {dtype}) to an output of type {out.dtype}', Exception, frame.evaluate,
                        case['src'], **kwargs)
            ctx.label('refused outputs')
            ctx.require(not out.any(), 'a refused output was written to')
            del kwargs['out']
            out = None
        elif case['out'] in ('f4', 'i4'):
            expected = [float(np.float32(v)) if case['out'] == 'f4' else v for v in expected]
            case = dict(case, tol=case['tol'] + 1e-6 * max([1.0] + [abs(v) for v in expected if v == v]))

    def go():
        r = frame.evaluate(case['src'], **kwargs)
        return list(r), list(r.index), type(r)
    got, index, type_ = ctx.sut(f'evaluate({case["src"]!r})', go)
    ctx.require(index == list(frame.index), lambda: f'evaluate({case["src"]!r}) has index {index}')
    require_list(ctx, f'evaluate({case["src"]!r})', got, expected, abs_=case['tol'])
    if out is not None:
        require_list(ctx, f'out= of evaluate({case["src"]!r})', list(out), expected, abs_=case['tol'])
    ctx.require(same_snapshot(snapshot(frame), before), f'evaluate({case["src"]!r}) changed the frame')
    if local:
        ctx.require(set(kwargs['local_dict']) == set(local), 'evaluate() changed the local_dict')

    import ast
    tree = ast.parse(case['src'].strip(), mode='eval')
    kinds = {type(x).__name__ for x in ast.walk(tree)}
    ctx.nontrivial = len(py.names) > 0 and bool(kinds & {'BinOp', 'Compare', 'BoolOp', 'Call', 'UnaryOp'})
    for k in ('BinOp', 'BoolOp', 'Call', 'UnaryOp'):
        ctx.label_if(k in kinds, k)
    ctx.label_if(any(isinstance(x, ast.Compare) and len(x.ops) > 1 for x in ast.walk(tree)), 'chained comparison')
    ctx.label_if(any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(tree)), 'text comparison')
    ctx.label_if(any(n in py.names for n, _, _ in case['local']), 'local names')
    ctx.label_if(any(isinstance(v, float) and math.isnan(v) for v in expected), 'missing results')
    ctx.label_if(out is not None, 'out=')
    ctx.label_if(case['n'] > 1000, 'more than 1000 rows')
    ctx.label_if(len(set(map(str, expected))) > 1, 'result varies')


# region Pairs of operators

ARITHMETIC = ['+', '-', '*', '/', '%', '//', '**']


@st.composite
def operator_cases(draw, tier):
    columns = {}
    n = draw(st.integers(2, 5))
    for name, kind in (('a', draw(st.sampled_from(['int', 'float', 'i1']))), ('b', draw(st.sampled_from(['int', 'float']))),
                       ('s', 'bool'), ('t', 'bool'), ('u', 'bool')):
        columns[name] = [kind, draw(column_values(kind, n))]
    # Divisors and exponents
    columns['p'] = [draw(st.sampled_from(['int', 'float'])), draw(st.lists(st.sampled_from([1, 2, 4]), min_size=n, max_size=n))]
    columns['q'] = ['int', draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))]

    def number(depth, powers=True):
        op = draw(st.sampled_from(ARITHMETIC + ['-x', '-x', '-x', 'abs', 'where'])) if depth else ''
        if op == '':
            return draw(st.sampled_from(['a', 'a', 'b', 'b', '2', '0.5', 'p']))
        if op == '-x':
            return ['-', number(depth - 1, powers)]
        if op == 'abs':
            return ['abs', number(depth - 1, powers)]
        if op == 'where':
            return ['where', boolean(depth - 1), number(depth - 1, powers), number(depth - 1, powers)]
        if op == '**':
            return [op, number(min(depth - 1, 1), False), draw(st.sampled_from(['2', '3', 'q'] if powers else ['2']))]
        if op in ('/', '%', '//'):
            left = number(depth - 1, powers)
            if op == '//' and not exprs.has_name(all_parentheses(left)):
                left = ['*', 'b', left]  # NumExpr has no such operator for constants
            return [op, left, draw(st.sampled_from(['p', '2', '4', '0.5', ['*', 'p', '2'], ['**', 'p', '2']]))]
        return [op, number(depth - 1, powers), number(depth - 1, powers)]

    def boolean(depth):
        op = draw(st.sampled_from(['and', 'or', '&', '|', 'not', 'not', '<', '<=', '>', '>=', '==', '!='])) if depth else ''
        if op == '':
            return draw(st.sampled_from(['s', 't', 'u']))
        if op == 'not':
            return [op, boolean(depth - 1)]
        if op in ('and', 'or', '&', '|'):
            return [op, boolean(depth - 1), boolean(depth - 1)]
        return [op, number(min(depth - 1, 1), False), draw(st.sampled_from(['a', 'b', 'p', ['-', 'a'], ['+', 'b', 'p']]))]
    depth = draw(st.sampled_from([2, 2, 2, 3, 3]))
    tree = number(depth) if draw(st.integers(0, 2)) else boolean(depth)
    return {'n': n, 'cols': [[name] + v for name, v in columns.items()], 'tree': tree, 'parens': draw(st.booleans())}


def python_tree(node):
    import ast
    if isinstance(node, str):
        return ast.parse(node, mode='eval').body
    op, args = node[0], [python_tree(x) for x in node[1:]]
    if op in ('abs', 'where'):
        return ast.Call(ast.Name(op), args, [])
    if op == 'not':
        return ast.UnaryOp(ast.Not(), args[0])
    if op == '-' and len(args) == 1:
        return ast.UnaryOp(ast.USub(), args[0])
    if op in ('and', 'or'):
        return ast.BoolOp(ast.And() if op == 'and' else ast.Or(), args)
    compare = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}
    if op in compare:
        return ast.Compare(args[0], [compare[op]()], [args[1]])
    return ast.BinOp(args[0], {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '%': ast.Mod, '//': ast.FloorDiv,
                               '**': ast.Pow, '&': ast.BitAnd, '|': ast.BitOr}[op](), args[1])


def all_parentheses(node):
    if isinstance(node, str):
        return node
    op, args = node[0], [all_parentheses(x) for x in node[1:]]
    if op in ('abs', 'where'):
        return f'{op}({", ".join(args)})'
    return f'({op} {args[0]})' if len(args) == 1 else f'({args[0]} {op} {args[1]})'


def run_operators(case, ctx):
    import ast
    src = all_parentheses(case['tree']) if case['parens'] else ast.unparse(ast.fix_missing_locations(python_tree(case['tree'])))
    frame = build_frame(dict(case, index={'kind': 'range', 'labels': list(range(case['n']))}))
    py = PyExpr(src)
    if not py.names:
        return
    try:
        expected = [py({name: values[i] for name, _, values in case['cols']}) for i in range(case['n'])]
    except Exception as e:
        raise HarnessError(f'the oracle cannot evaluate {src!r}: {e!r}')
    got = ctx.sut(f'evaluate({src!r})', lambda: list(frame.evaluate(src)))
    size = max([1.0] + [abs(float(v)) for v in expected])
    require_list(ctx, f'evaluate({src!r})', got, expected, abs_=0.0 if isinstance(expected[0], bool) else 1e-9 * size)
    ctx.nontrivial = True
    for op in ARITHMETIC + ['and', 'or', 'not', '&', '|']:
        ctx.label_if(f' {op} ' in f' {src}'.replace('(', ' '), 'operator ' + op)

# endregion


# region Refusals

BAD = ['{x} if {t} else {y}', '{x}[0]', '[q for q in {x}]', '{{k: {x} for k in {y}}}', 'foo({x})', 'print({x})', 'len({x})',
       '{x} is {y}', '{x} is not {y}', '{x} in {y}', '{x} not in {y}', 'lambda: {x}', '({x}, {y})', '{x}.nope({y})',
       'zz.sum({x}, {y})', 'zz.sum(q={x})', 'zz.sum(*{x})', '{x}[1:2]', '{x}({y})', 'str({x})', '{x}.upper()',
       'getattr({x}, "y")']
SYNTAX = ['{x} +', '{x} {y}', '= {x}', '{x} = 3', '{x}; {y}', '({x}', '{x} @ A @ B', '', '* {x}', 'not', '{x} <> {y}', '{x}]']
FRAME_ONLY = ['unknown_name', '{x}.attribute', 'unknown.attribute', '{x}.sum({y})', '{x} @ A', '{x} + where', '{{A: 1}}',
              'where({t}, {x})', 'sqrt()', 'unknown.sum()', '{x} < unknown_name', 'OUT']
OUTER = ['{}', '1 + ({})', 'where({t}, ({}), 0)', '-({})', '({}) < 1', '1 < ({}) < 3', 'abs(({}))', '{x} * ({})',
         '({t}) and (({}) > 1)', 'where(not ({t}), {x}, ({}))']


@st.composite
def bad_frame_cases(draw, tier):
    n = draw(st.integers(1, 3))
    cols = [['x', 'float', draw(column_values('float', n))], ['y', 'int', draw(column_values('int', n))],
            ['t', 'bool', draw(column_values('bool', n))]]
    pool = draw(st.sampled_from(['bad', 'bad', 'frame', 'syntax']))
    bad = draw(st.sampled_from({'bad': BAD, 'frame': FRAME_ONLY, 'syntax': SYNTAX}[pool]))
    names = {'x': draw(st.sampled_from(['x', 'y'])), 'y': draw(st.sampled_from(['y', 'x'])), 't': 't'}
    src = bad.format(**names)
    if pool != 'syntax' and '@' not in src:
        outer = draw(st.sampled_from(OUTER))
        src = outer.replace('{}', src).replace('{x}', names['x']).replace('{t}', 't')
    return {'cols': cols, 'n': n, 'src': src, 'index': draw(models.unit_labels(n, n)), 'linked': draw(st.booleans())}


def run_bad_frame(case, ctx):
    import pandas as pd
    frame = build_frame(case)
    if case['linked']:
        frame.link_to(pd.DataFrame({'q': [1.0] * case['n']}, index=frame.index), 'zz')
    before = snapshot(frame)
    link = list(frame.zz.q) if case['linked'] else None
    ctx.refused(f'evaluate({case["src"]!r})', Exception, frame.evaluate, case['src'])
    ctx.require(same_snapshot(snapshot(frame), before), f'refusing {case["src"]!r} changed the frame')
    if case['linked']:
        require_list(ctx, f'link after refusing {case["src"]!r}', ctx.sut('lookup', lambda: list(frame.zz.q)), link)
    got = ctx.sut('evaluate after a refused expression', lambda: list(frame.evaluate('x + 1')))
    require_list(ctx, 'evaluate after a refused expression', got, [v + 1 for v in case['cols'][0][2]])
    ctx.nontrivial = True
    ctx.label('refused by a frame')


# Every one of these has to be refused as soon as it is appended to a model's expressions
BAD_APPEND = [b for b in BAD if 'lambda' not in b and '(*' not in b] + ['{{A: {x}}}', '{{A: 1 + 2}}', '{{1: 2}}', '{{A: "text"}}', '{{A[0]: 2}}']

NAMED = [' if ', ' for ', 'foo(', 'print(', 'str(']  # To be refused with the public exception


@st.composite
def group_cases(draw, tier):
    """A model with good expressions (over plain symbols p0.. and tables t0..), interleaved with refused ones"""
    kinds = {f's{i}': draw(st.sampled_from(['plain', 'table'])) for i in range(draw(st.integers(2, 5)))}
    steps, used = [], {}
    for _ in range(draw(st.integers(2, 8))):
        group = draw(st.sampled_from([None, None, 'g', 'h']))
        op = draw(st.sampled_from(['good', 'good', 'bad', 'conflict']))
        names = draw(st.lists(st.sampled_from(sorted(kinds)), min_size=1, max_size=2, unique=True))
        text = ' + '.join(n if kinds[n] == 'plain' else n + '.v' for n in names)
        if op == 'good':
            for n in names:
                used[n] = kinds[n]
            steps.append(['good', text, group])
        elif op == 'bad':
            # Mentions names in the usage they do NOT have, before (or after) the part that gets refused
            swapped = [n if kinds[n] == 'table' else n + '.v' for n in names if n not in used]
            bad = draw(st.sampled_from(BAD_APPEND)).format(x='new1', y='new2', t='new3')
            parts = swapped + [f'({bad})']
            if draw(st.booleans()):
                parts.reverse()
            steps.append(['bad', ' + '.join(parts), group])
        else:
            n = names[0]
            if n in used:
                steps.append(['bad', draw(st.sampled_from(['{} + 1', '1 + {}', 'abs({})', '-{}', '{} * 2'])).format(
                    n if used[n] == 'table' else n + '.v'), group])
            else:
                both = [n, n + '.v']
                if draw(st.booleans()):
                    both.reverse()
                steps.append(['bad', draw(st.sampled_from(['{} + {}', 'where({} > 1, {}, 0)', '{} < {}'])).format(*both), group])
    values = {n: draw(st.integers(-16, 16)) / 8 for n in kinds}
    return {'kinds': kinds, 'steps': steps, 'values': values}


def run_group(case, ctx):
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel, UnsupportedSyntaxError
    m = ChoiceModel()
    m.add_choices(['A', 'B'])
    m.decision_units = pd.Index([1, 2])
    total = 0.0
    by_group = {}
    good = []
    n_bad = 0
    for kind, text, group in case['steps']:
        if kind == 'good':
            ctx.sut(f'appending {text!r}', m.expressions.append, text, group)
            value = sum(case['values'][n.split('.')[0]] for n in text.split(' + '))
            total += value
            if group is None:
                good.append(text)
            else:
                by_group[group] = by_group.get(group, 0.0) + value
        else:
            n_bad += 1
            e = ctx.refused(f'appending {text!r}', Exception, m.expressions.append, text, group)
            if any(x in text for x in NAMED):
                ctx.require(isinstance(e, UnsupportedSyntaxError), lambda: f'appending {text!r}: refused with {type(e)}: {e}')
                ctx.label('refused as unsupported syntax')
        ctx.require(m.expressions.tolist() == good, lambda: f'after {text!r}, ungrouped expressions are {m.expressions.tolist()}')
    used = {n.split('.')[0] for k, t, _ in case['steps'] if k == 'good' for n in t.split(' + ')}
    for n in used:
        if case['kinds'][n] == 'plain':
            m.declare_number(n)
            m[n].assign(case['values'][n])
        else:
            m.declare_table(n, 0)
            m[n].assign(pd.DataFrame({'v': [case['values'][n]] * 2}, index=m.decision_units))

    def go(group=None):
        terms = m.run_stochastic(clear_scope=False, group=group)[2]
        return np.log(terms.values).ravel()
    got = ctx.sut('running the model', go)
    require_list(ctx, 'utilities after refused expressions', got, [total] * 4, abs_=1e-9)
    for g, v in by_group.items():
        got = ctx.sut('running the model', go, g)
        require_list(ctx, f'utilities of group {g} after refused expressions', got, [v] * 4, abs_=1e-9)
    groups = {s[2] for s in case['steps'] if s[2] is not None}
    for g in groups - set(by_group):
        ctx.refused(f'running group {g!r} which never got any expression', Exception, go, g)
    ctx.nontrivial = n_bad > 0 and len(used) > 0
    ctx.label('refused by a model', n_bad)
    ctx.label_if(bool(by_group), 'with groups')

# endregion


PARTS = [
    Part('evaluate', eval_cases, run_eval, 8000, 150000),
    Part('operators', operator_cases, run_operators, 4000, 60000),
    Part('refused-frame', bad_frame_cases, run_bad_frame, 1200, 10000),
    Part('refused-model', group_cases, run_group, 1200, 15000),
]
