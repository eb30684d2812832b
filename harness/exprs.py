"""Generator of expression sources, and their evaluation with Python itself (one row or cell at a time).

Values are kept on a grid (multiples of 1/8 with few digits), with the number of significant bits tracked, so that sums
and products are exact in any order and in single precision, and comparisons never depend on rounding. Functions whose
results get rounded are never used inside of comparisons.
"""
import ast
import math
import re

from hypothesis import strategies as st

# Python's precedences
OR, AND, NOT, CMP, BOR, BXOR, BAND, ADD, MUL, UNARY, POW, ATOM = 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13

MAX_BITS = 21
FINE = 27  # Digits of numbers which single precision cannot hold


class Leaf:
    """Something that can be named in an expression"""

    def __init__(self, src, kind, max_=8.0, frac=3, nan=False, texts=()):
        self.src, self.kind, self.max, self.frac, self.nan, self.texts = src, kind, max_, frac, nan, list(texts)


class Node:
    """A piece of source. Exact numbers have their bounds known"""

    def __init__(self, src, prec, exact=True, max_=0.0, frac=0, single=False):
        self.src, self.prec, self.exact, self.max, self.frac, self.single = src, prec, exact, max_, frac, single


_WORDS = re.compile(r'[A-Za-z_]\w*')


def has_name(src):
    return any(w not in FUNCTIONS for w in _WORDS.findall(src))


def too_long(max_, frac, *nodes):
    """Whether a number could need more digits than can be held exactly"""
    single = any(x.single for x in nodes)
    fine = any(x.frac >= FINE for x in nodes)
    return math.log2(max(max_, 1.0)) + frac > (50 if fine and not single else MAX_BITS)


class Gen:
    def __init__(self, draw, leaves, functions=True, nan_words=True, single=False):
        self.draw = draw
        self.numbers = [x for x in leaves if x.kind in ('int', 'float', 'f4', 'uint')]
        self.bools = [x for x in leaves if x.kind == 'bool']
        self.texts = [x for x in leaves if x.kind == 'text']
        self.dicts = [x for x in leaves if x.kind == 'dict']
        self.functions = functions
        self.nan_words = nan_words
        self.single = single
        self.used = set()

    def pick(self, options):
        return self.draw(st.sampled_from(options))

    def wrap(self, node, prec):
        """The source of an operand, in (possibly redundant) parentheses"""
        if node.prec < prec or self.draw(st.integers(0, 11)) == 0:
            return '(' + node.src + ')'
        return node.src

    def space(self):
        return self.pick([' ', ' ', ' ', '', '  '])

    def binary(self, a, op, b, prec, right_prec=None):
        sp = self.space()
        if not op[0].isalpha() and op != '-':
            pass
        else:
            sp = ' ' if op[0].isalpha() else sp
        return f'{self.wrap(a, prec)}{sp}{op}{sp}{self.wrap(b, prec + 1 if right_prec is None else right_prec)}'

    def constant(self, positive=False):
        form = self.draw(st.integers(0, 4))
        if form <= 1:
            v = self.draw(st.integers(0 if not positive else 1, 8))
            return Node(str(v), ATOM, True, float(v), 0)
        v = self.draw(st.integers(0 if not positive else 1, 48)) / 8
        text = repr(v)
        if form == 2 and text.startswith('0.'):
            text = text[1:]
        elif form == 3:
            text = f'{v:.3f}'
        elif form == 4:
            text = f'{v * 8:.0f}e0' if False else text
        return Node(text, ATOM, True, v, 3)

    def leaf(self):
        if self.dicts and self.draw(st.integers(0, 3)) == 0:
            x = self.pick(self.dicts)
            self.used.add(x.src)
            return Node(x.src, ATOM, True, x.max, x.frac)
        if not self.numbers or self.draw(st.integers(0, 5)) == 0:
            return self.constant()
        x = self.pick(self.numbers)
        self.used.add(x.src)
        node = Node(x.src, ATOM, True, x.max, x.frac, x.kind == 'f4')
        return node

    def exact(self, depth):
        if depth <= 0:
            return self.leaf()
        form = self.draw(st.integers(0, 13))
        if form <= 2:
            return self.leaf()
        if form <= 5:
            op = self.pick(['+', '-', '-'])
            a, b = self.exact(depth - 1), self.exact(depth - 1)
            if too_long(a.max + b.max, max(a.frac, b.frac), a, b):
                return a
            return Node(self.binary(a, op, b, ADD), ADD, True, a.max + b.max, max(a.frac, b.frac), a.single or b.single)
        if form <= 7:
            a, b = self.exact(depth - 1), self.exact(depth - 1)
            if too_long(a.max * b.max, a.frac + b.frac, a, b):
                return a
            return Node(self.binary(a, '*', b, MUL), MUL, True, a.max * b.max, a.frac + b.frac, a.single or b.single)
        if form == 8:
            a = self.exact(depth - 1)
            return Node('-' + self.space().strip() + self.wrap(a, UNARY), UNARY, True, a.max, a.frac, a.single)
        if form == 9:
            a = self.exact(depth - 1)
            if too_long(a.max ** 2, a.frac * 2, a):
                return a
            return Node(self.binary(a, '**', Node('2', ATOM), ATOM, UNARY), POW, True, a.max ** 2, a.frac * 2, a.single)
        if form == 10:
            a = self.exact(depth - 1)
            d = self.pick(['2', '4', '2.0', '0.5'])
            return Node(self.binary(a, '/', Node(d, ATOM), MUL), MUL, True, a.max * 2, a.frac + 2, a.single) \
                if not too_long(a.max * 2, a.frac + 2, a) else a
        if form == 11:
            c, a = self.boolean(depth - 1), self.exact(depth - 1)
            # A condition inside a product needs its parentheses
            if self.draw(st.booleans()):
                return Node(self.binary(c, '*', a, MUL), MUL, True, a.max, a.frac, a.single)
            return Node(self.binary(a, '*', c, MUL), MUL, True, a.max, a.frac, a.single)
        if form == 12:
            c, a, b = self.boolean(depth - 1), self.exact(depth - 1), self.exact(depth - 1)
            return Node(f'where({c.src},{self.space()}{a.src}, {b.src})', ATOM, True, max(a.max, b.max),
                        max(a.frac, b.frac), a.single or b.single)
        a = self.exact(depth - 1)
        if not self.functions:
            return a
        f = self.pick(['abs', 'floor', 'ceil', 'abs', 'maximum', 'minimum', 'mod'])
        if f in ('maximum', 'minimum'):
            b = self.constant()
            return Node(f'{f}({a.src}, {b.src})', ATOM, True, max(a.max, b.max), max(a.frac, b.frac), a.single)
        if f == 'mod':
            op = self.pick(['%', '//'])
            return Node(self.binary(a, op, Node('2', ATOM), MUL), MUL, True, a.max + 2, a.frac, a.single)
        return Node(f'{f}({a.src})', ATOM, True, a.max + 1, a.frac, a.single)

    def variable(self):
        """A number which isn't made of constants only, as conditions over constants have no rows"""
        if self.numbers:
            x = self.pick(self.numbers)
            return Node(x.src, ATOM, True, x.max, x.frac, x.kind == 'f4')
        if self.bools:
            return Node(f'{self.pick(self.bools).src} * 1', MUL, True, 1.0, 0)
        x = self.pick(self.texts)
        return Node(f'({x.src} == {self.pick(x.texts)!r}) * 1', MUL, True, 1.0, 0)

    def operands(self, n, depth):
        parts = [self.exact(depth) for _ in range(n)]
        for i in range(n - 1):
            if not has_name(parts[i].src) and not has_name(parts[i + 1].src):
                parts[i + 1] = self.variable()
        return parts

    def compare_op(self):
        return self.pick(['<', '<=', '>', '>=', '==', '!='])

    def boolean(self, depth):
        form = self.draw(st.integers(0, 11)) if depth > 0 else self.pick([0, 0, 10])
        if form == 10 and self.bools:
            x = self.pick(self.bools)
            self.used.add(x.src)
            return Node(x.src, ATOM)
        if form == 11 and self.texts:
            x = self.pick(self.texts)
            self.used.add(x.src)
            lit = self.pick(x.texts)
            quoted = repr(lit) if self.draw(st.booleans()) else '"' + lit + '"'
            # NumExpr gets the order of empty literals wrong
            op = self.pick(['==', '!=', '==', '<', '>='] if lit else ['==', '!='])
            pair = [Node(x.src, ATOM), Node(quoted, ATOM)]
            if op in ('==', '!=') and self.draw(st.booleans()):
                pair.reverse()
            return Node(self.binary(pair[0], op, pair[1], BOR, BOR), CMP)
        if form <= 3 or form in (10, 11):
            a, b = self.operands(2, max(depth - 1, 0))
            return Node(self.binary(a, self.compare_op(), b, BOR, BOR), CMP)
        if form == 4:
            n = self.draw(st.integers(3, 4))
            parts = self.operands(n, max(depth - 2, 0))
            src = self.wrap(parts[0], BOR)
            for p in parts[1:]:
                src += ' ' + self.compare_op() + ' ' + self.wrap(p, BOR)
            return Node(src, CMP)
        if form in (5, 6):
            word, prec = self.pick([('and', AND), ('or', OR)])
            n = self.draw(st.integers(2, 3))
            parts = [self.boolean(depth - 1) for _ in range(n)]
            return Node(f' {word} '.join(self.wrap(p, prec + 1) for p in parts), prec)
        if form in (7, 8):
            a = self.boolean(depth - 1)
            return Node('not ' + self.wrap(a, NOT), NOT)
        op, prec = self.pick([('&', BAND), ('|', BOR), ('&', BAND)])
        a, b = self.boolean(depth - 1), self.boolean(depth - 1)
        return Node(self.binary(a, op, b, prec), prec)

    def rounded(self, depth):
        """A number which may have been rounded. Its bound is the size which rounding errors are relative to"""
        form = self.draw(st.integers(0, 6)) if self.functions else 0
        a = self.exact(depth - 1)
        if form <= 1:
            return a
        if form == 2:
            f = self.pick(['sqrt', 'log1p'])
            return Node(f'{f}(abs({a.src}))', ATOM, False, a.max + 1, 0, a.single)
        if form == 3:
            f = self.pick(['sin', 'cos', 'tanh', 'arctan'])
            return Node(f'{f}({a.src})', ATOM, False, max(a.max, 1.0), 0, a.single)
        if form == 4:
            return Node(f'exp(minimum({a.src}, 4))', ATOM, False, 60.0 * max(a.max, 1), 0, a.single)
        if form == 5:
            b = self.exact(depth - 1)
            return Node(f'{self.wrap(a, MUL)} / (abs({b.src}) + 1)', MUL, False, a.max, 0, a.single or b.single)
        return Node(f'log(abs({a.src}) + 0.5)', ATOM, False, a.max + 1, 0, a.single)

    def number(self, depth):
        form = self.draw(st.integers(0, 5))
        if form <= 2:
            return self.exact(depth)
        if form == 3:
            return self.rounded(depth)
        a, b = self.rounded(depth), self.rounded(depth)
        if form == 4:
            op = self.pick(['+', '-'])
            return Node(self.binary(a, op, b, ADD), ADD, a.exact and b.exact, a.max + b.max, 0, a.single or b.single)
        c = self.boolean(depth - 1)
        other = self.pick([b.src, b.src, b.src, 'nan' if self.nan_words else b.src, 'None' if self.nan_words else b.src])
        return Node(f'where({c.src}, {a.src}, {other})', ATOM, a.exact and b.exact, max(a.max, b.max), 0,
                    a.single or b.single)


def tolerance(node):
    """Absolute tolerance for the values of a number"""
    return (1e-4 if node.single else 1e-10) * max(node.max, 1.0) if not node.exact or node.single else 1e-12


# region Evaluation with Python


class _Rewriter(ast.NodeTransformer):
    def __init__(self, on_dict, on_chain):
        self.on_dict, self.on_chain = on_dict, on_chain

    def visit_Constant(self, node):
        if node.value is None:
            return ast.copy_location(ast.Name('nan', ast.Load()), node)
        return node

    def visit_Name(self, node):
        if node.id.lower() in ('nan', 'none'):
            return ast.copy_location(ast.Name('nan', ast.Load()), node)
        return node

    def visit_Dict(self, node):
        items = []
        for k, v in zip(node.keys, node.values):
            if isinstance(k, ast.Constant):
                path = [k.value]
            else:
                path = self._chain(k)
            items.append((path, float(ast.literal_eval(v))))
        return ast.copy_location(ast.Name(self.on_dict(items), ast.Load()), node)

    @staticmethod
    def _chain(node):
        names = []
        while isinstance(node, ast.Attribute):
            names.insert(0, node.attr)
            node = node.value
        names.insert(0, node.id)
        return names

    def visit_Attribute(self, node):
        return ast.copy_location(ast.Name(self.on_chain(self._chain(node), None), ast.Load()), node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute):
            args = ast.unparse(node.args[0]) if node.args else '1'
            return ast.copy_location(ast.Name(self.on_chain(self._chain(node.func), args), ast.Load()), node)
        return self.generic_visit(node)


def _safe(f):
    def g(x):
        x = float(x)
        try:
            return f(x)
        except OverflowError:
            return math.inf
        except ValueError:
            return math.nan
    return g


def _log(x):
    return -math.inf if x == 0 else math.log(x)


FUNCTIONS = {
    'where': lambda c, a, b: a if c else b,
    'abs': abs,
    'floor': _safe(lambda x: x if x != x or math.isinf(x) else math.floor(x)),
    'ceil': _safe(lambda x: x if x != x or math.isinf(x) else math.ceil(x)),
    'sqrt': _safe(math.sqrt), 'log1p': _safe(math.log1p), 'sin': _safe(math.sin), 'cos': _safe(math.cos),
    'tanh': _safe(math.tanh), 'arctan': _safe(math.atan), 'exp': _safe(math.exp), 'log': _safe(_log),
    'maximum': lambda a, b: math.nan if a != a or b != b else max(a, b),
    'minimum': lambda a, b: math.nan if a != a or b != b else min(a, b),
    'nan': math.nan, 'NEG_INF': -math.inf,
}


class PyExpr:
    """An expression source, ready to be evaluated by Python"""

    def __init__(self, source):
        self.dicts, self.chains = [], []
        tree = ast.parse(source, mode='eval')
        tree = _Rewriter(self._on_dict, self._on_chain).visit(tree)
        ast.fix_missing_locations(tree)
        self.names = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)} - set(FUNCTIONS)
        self.code = compile(tree, '<expression>', 'eval')

    def _on_dict(self, items):
        self.dicts.append(items)
        return f'__dict_{len(self.dicts) - 1}'

    def _on_chain(self, chain, args):
        self.chains.append((chain, args))
        return f'__chain_{len(self.chains) - 1}'

    def __call__(self, env):
        return eval(self.code, {'__builtins__': {}, **FUNCTIONS, **env})

# endregion
