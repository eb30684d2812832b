"""A reference model of ChoiceModel in plain Python, a generator of operation histories over it, and the code which runs
a history against the real class and compares the two.

A history is {'symbols': {...}, 'ops': [[slot, op, ...], ...]}: slots number the models, as copying makes new ones.
"""
import math

from hypothesis import strategies as st

from . import models
from .core import HarnessError, require_list, same_value
from .exprs import FINE, Gen, Leaf, PyExpr, tolerance

TEXTS = ['a', 'ab', 'b c', 'Z', 'x    y', 'x y', 'a.v', '({', '#1']
SYMBOL_NAMES = ['a', 'a1', 'a10', 'x', 'X', 'util', 'OUTx', 'e', 't2', 'zone', '_p', 'nest', 'NANs', 'sub_0', 'r1', 'r10']
ATTRS = ['v', 'w', 'v1', 'v10', 'x', 'size_']
DTYPES = {'int': 'i8', 'float': 'f8', 'fine': 'f8', 'f4': 'f4', 'bool': '?', 'uint': 'u1', 'i4': 'i4'}


def leaf_kind(kind):
    return {'i4': 'int', 'fine': 'float', 'texto': 'text', 'textc': 'text'}.get(kind, kind)


def leaf(src, kind):
    k = leaf_kind(kind)
    return Leaf(src, k, 2.0, FINE if kind == 'fine' else 0 if k in ('int', 'uint') else 3, False, TEXTS)


def values_of(kind):
    if kind in ('int', 'i4'):
        return st.integers(-2, 2)
    if kind == 'uint':
        return st.integers(0, 2)
    if kind in ('float', 'f4'):
        return st.integers(-16, 16).map(lambda k: k / 8)
    if kind == 'fine':  # Single precision would round them
        return st.tuples(st.integers(-15, 15), st.integers(-63, 63)).map(lambda k: k[0] / 8 + k[1] / 2 ** FINE)
    if kind == 'bool':
        return st.booleans()
    return st.sampled_from(TEXTS)


class NotReady(Exception):
    """The reference model says that ModelNotReadyError has to be raised"""


class OutOfBounds(Exception):
    """The reference model says that UtilityBoundsError has to be raised"""


class OutsideDomain(Exception):
    """Numbers are too large to say anything"""


# region Reference model


class RefModel:
    def __init__(self, precision=8):
        self.precision = precision
        self.tree = {}  # path (tuple) -> logsum scale
        self.units = None
        self.symbols = {}  # name -> [spec, data or None]
        self.exprs = []  # (src, filter, tol)
        self.groups = {}
        self.partial = None
        self.partial_tol = 0.0

    # Tree
    def add(self, path, scale):
        path = tuple(path)
        for other in [p for p in self.tree if p[:len(path)] == path]:
            del self.tree[other]
        self.tree[path] = scale
        self.partial = None
        for spec, data in self.symbols.values():
            pass
        for name, entry in self.symbols.items():
            spec = entry[0]
            if spec['kind'] == 'matrix' or (spec['kind'] in ('vector', 'table') and spec['orient'] == 1):
                entry[1] = None

    @property
    def tree_list(self):
        return [[list(p), s] for p, s in self.tree.items()]

    def tree_ok(self):
        t = self.tree_list
        if sum(1 for p, _ in t if len(p) == 1) < 2:
            return False
        return not any(len(models.children(t, p)) == 1 for p, _ in t)

    # Scope
    def set_units(self, units):
        self.units = units
        self.partial = None
        for entry in self.symbols.values():
            if entry[0]['kind'] != 'number':
                entry[1] = None

    def declare(self, name, spec):
        self.symbols[name] = [spec, None]

    def n(self):
        return len(self.units['labels'])

    def assign(self, name, data):
        spec = self.symbols[name][0]
        if spec['kind'] == 'matrix':
            grid = [[spec['fill']] * len(self.tree) for _ in range(self.n())]
            for i, r in enumerate(data['rows']):
                for j, c in enumerate(data['cols']):
                    grid[r][c] = data['values'][i][j]
            data = grid
        elif spec['kind'] == 'vector':
            data = data['values']
        elif spec['kind'] == 'table':
            net = data.get('net')
            data = {c: v for c, _, v in data['cols']}
            if net:
                data.update(linked_values(net))
        self.symbols[name][1] = data

    def clear_scope(self):
        self.symbols = {}

    # Expressions
    def append(self, src, filter_, group, tol):
        if group is None:
            self.exprs.append((src, filter_, tol))
        else:
            self.groups.setdefault(group, []).append((src, filter_, tol))

    def selected(self, group=None):
        if group is not None:
            return self.groups[group]
        return self.exprs + [e for g in self.groups.values() for e in g]

    @staticmethod
    def names(expressions):
        used = set()
        for src, _, _ in expressions:
            py = compiled(src)
            used |= {n for n in py.names if not n.startswith('__')}
            used |= {chain[0] for chain, _ in py.chains}
        return used

    def ready(self, group=None):
        if not self.tree_ok() or self.units is None:
            return False
        return all(n in self.symbols and self.symbols[n][1] is not None for n in self.names(self.selected(group)))

    def base(self):
        return self.partial or [[0.0] * len(self.tree) for _ in range(self.n())]

    def cell_env(self, py, i, j):
        env = {}
        for n in py.names:
            if n.startswith('__'):
                continue
            spec, data = self.symbols[n]
            if spec['kind'] == 'number':
                env[n] = data
            elif spec['kind'] == 'vector':
                env[n] = data[j if spec['orient'] else i]
            else:
                env[n] = data[i][j]
        for k, (chain, args) in enumerate(py.chains):
            spec, data = self.symbols[chain[0]]
            key = chain[1] if args is None and len(chain) == 2 else chain_key(chain[1:], args)
            env[f'__chain_{k}'] = data[key][j if spec['orient'] else i]
        paths = list(self.tree)
        for k, items in enumerate(py.dicts):
            value = 0.0
            for key, v in items:
                if key[-1] == '_' and len(key) > 1:
                    if paths[j][:len(key) - 1] == tuple(key[:-1]) and len(paths[j]) > len(key) - 1:
                        value = v
                elif tuple(key) == paths[j]:
                    value = v
            env[f'__dict_{k}'] = value
        return env

    def utilities(self, group=None):
        if not self.ready(group):
            raise NotReady()
        total = [list(row) for row in self.base()]
        paths = list(self.tree)
        for src, filter_, _ in self.selected(group):
            py = compiled(src)
            for j in range(len(paths)):
                if filter_ is not None and '.'.join(paths[j]) != filter_:
                    continue
                for i in range(self.n()):
                    total[i][j] += float(py(self.cell_env(py, i, j)))
        return total

    def tol(self, group=None):
        return sum(t for _, _, t in self.selected(group)) + (self.partial_tol if self.partial is not None else 0.0)

    def preval(self, group, drop, cleanup):
        utils = self.utilities(group)
        if any(u != u for row in utils for u in row):
            raise OutOfBounds()
        # Only what was rounded in there, exact sums stay so
        before = self.partial_tol if self.partial is not None else 0.0
        self.partial_tol = before + sum(t for _, _, t in self.groups[group] if t > 1e-12)
        self.partial = utils
        used = self.names(self.groups[group])
        others = self.names(self.exprs + [e for g, es in self.groups.items() if g != group for e in es])
        if cleanup:
            for n in used - others:
                self.symbols.pop(n, None)
        if drop:
            del self.groups[group]

    def add_partial(self, data):
        base = [list(r) for r in self.base()]
        for i, r in enumerate(data['rows']):
            for j, c in enumerate(data['cols']):
                base[r][c] += data['values'][i][j]
        self.partial_tol = self.partial_tol if self.partial is not None else 0.0
        self.partial = base

    def copy(self, flags):
        new = RefModel(self.precision)
        new.tree = dict(self.tree)
        assigned, declared = flags.get('scope_assigned', True), flags.get('scope_declared', True)
        if flags.get('decision_units', True) or assigned:
            new.units = self.units
        if assigned or declared:
            new.symbols = {n: [spec, data if assigned else None] for n, (spec, data) in self.symbols.items()}
        if flags.get('expressions', True):
            new.exprs = list(self.exprs)
            new.groups = {g: list(e) for g, e in self.groups.items()}
        if flags.get('utilities', True) and self.partial is not None and new.units is not None:
            new.partial = [list(r) for r in self.partial]
            new.partial_tol = self.partial_tol
        return new

    def subset(self, mask):
        new = self.copy({})
        keep = [i for i, x in enumerate(mask) if x]
        new.units = {'kind': self.units['kind'] if self.units['kind'] != 'range' else 'int',
                     'labels': [self.units['labels'][i] for i in keep]}
        if self.partial is not None:
            new.partial = [list(self.partial[i]) for i in keep]
        for name, entry in new.symbols.items():
            spec, data = entry
            if data is None:
                continue
            if spec['kind'] == 'matrix' or (spec['kind'] == 'vector' and spec['orient'] == 0):
                entry[1] = [data[i] for i in keep]
            elif spec['kind'] == 'table' and spec['orient'] == 0:
                entry[1] = {c: [v[i] for i in keep] for c, v in data.items()}
        return new

    def expected(self, group=None, scale=True, check=True):
        """Expected results of a stochastic run: rows of (probabilities, logsum, terms)"""
        utils = self.utilities(group)
        if any(u != u for row in utils for u in row):
            raise OutOfBounds()
        tree = self.tree_list
        limit = 70 if self.precision == 4 and models.depth(tree) == 1 else 500
        out = []
        infeasible = False
        for row in utils:
            p, top, terms, magnitude = models.logit(tree, row, scale)
            if magnitude > limit:
                raise OutsideDomain()
            infeasible = infeasible or top <= 0
            out.append((p, top, terms))
        if infeasible and check:
            raise OutOfBounds()
        return out, utils


LINKED_ATTRS = {'z.v': 'float', 'z.k': 'int', 'z.t': 'texto', 'y.sum(v)': 'float', 'y.max(v + k)': 'float', 'y.count()': 'int'}


def linked_values(net):
    """What linked terms of a table give. Every row has a match."""
    zones = {z[0]: z for z in net['zones']}
    items = [[y for y in net['items'] if y[0] == row] for row in range(len(net['keys']))]
    return {'z.v': [zones[k][1] for k in net['keys']], 'z.k': [zones[k][2] for k in net['keys']],
            'z.t': [zones[k][3] for k in net['keys']], 'y.sum(v)': [sum(y[1] for y in ys) for ys in items],
            'y.max(v + k)': [max(y[1] + y[2] for y in ys) for ys in items], 'y.count(1)': [len(ys) for ys in items]}


def chain_key(chain, args):
    return '.'.join(chain) + ('' if args is None else f'({args})')


_compiled = {}


def compiled(src):
    if src not in _compiled:
        if len(_compiled) > 5000:
            _compiled.clear()
        _compiled[src] = PyExpr(src)
    return _compiled[src]

# endregion
# region Building real arguments


def choice_labels(ref):
    t = ref.tree_list
    return models.labels(t) if t else []


def make_series(kind, values, index=None):
    import numpy as np
    import pandas as pd
    if kind in DTYPES:
        return pd.Series(np.array(values, dtype=DTYPES[kind]), index=index)
    s = pd.Series(np.array(values, dtype=object), index=index)
    return s.astype('category') if kind == 'textc' else s


def make_data(model, ref, spec, data):
    """The real argument of assign()"""
    import numpy as np
    import pandas as pd
    if spec['kind'] == 'number':
        return data
    if spec['kind'] == 'matrix':
        index = model.decision_units.take(data['rows'])
        columns = model.choices.take(data['cols'])
        values = np.array(data['values'], dtype=DTYPES[spec['dtype']]).reshape(len(index), len(columns))
        if data.get('types'):
            values = values.T if spec['orient'] else values
            index, columns = (columns, index) if spec['orient'] else (index, columns)
            kinds = [data['types'].get(str(k), spec['dtype']) for k in range(len(columns))]
            frame = pd.concat([pd.Series(values[:, k].astype(DTYPES[d]), index=index) for k, d in enumerate(kinds)], axis=1)
            frame.columns = columns
            return frame
        if data.get('order') == 'F':
            values = np.asfortranarray(values)
        frame = pd.DataFrame(values, index=index, columns=columns)
        return frame.transpose() if spec['orient'] else frame
    index = model.choices if spec['orient'] else model.decision_units
    if spec['kind'] == 'vector':
        s = make_series(spec['dtype'], data['values'], index)
        return s.values.copy() if data['form'] == 'array' else s
    from cheval import LinkedDataFrame
    frame = pd.DataFrame({c: make_series(k, v, index) for c, k, v in data['cols']}, index=index)
    if data.get('net'):
        net = data['net']
        frame['key_'] = net['keys']
        frame['row_'] = list(range(len(net['keys'])))
        frame = LinkedDataFrame(frame)
        zones = pd.DataFrame({'v': [float(z[1]) for z in net['zones']], 'k': [int(z[2]) for z in net['zones']],
                              't': np.array([z[3] for z in net['zones']], dtype=object)}, index=[z[0] for z in net['zones']])
        items = pd.DataFrame({'z': [int(y[0]) for y in net['items']], 'v': [float(y[1]) for y in net['items']],
                              'k': [int(y[2]) for y in net['items']]})
        if net['wrap']:
            zones, items = LinkedDataFrame(zones), LinkedDataFrame(items)
        frame.link_to(zones, 'z', on_self='key_')
        frame.link_to(items, 'y', on_self='row_', on_other='z')
        TARGETS.append((frame, zones, items))
        del TARGETS[:-50]
        return frame
    return LinkedDataFrame(frame) if data.get('linked') else frame


TARGETS = []  # Frames with the frames they are linked to


def snapshot(obj):
    """A deep value of something handed to a model"""
    import pandas as pd
    if isinstance(obj, pd.DataFrame):
        return ('frame', list(obj.columns), list(obj.index), [str(d) for d in obj.dtypes],
                [list(obj.iloc[:, k]) for k in range(obj.shape[1])])
    if isinstance(obj, pd.Series):
        return ('series', list(obj.index), str(obj.dtype), list(obj), obj.name)
    if hasattr(obj, 'shape'):
        return ('array', str(obj.dtype), obj.shape, obj.ravel().tolist())
    return ('scalar', obj)


def same_snapshot(a, b):
    return repr(a) == repr(b)

# endregion
# region Running histories against the real class


class World:
    def __init__(self, case, ctx, check_inputs=False):
        self.case, self.ctx = case, ctx
        self.specs = case['symbols']
        self.real, self.ref = [], []
        self.nodes = []  # Of each model, {path: what add_choice() returned}
        self.inputs = []  # (object, snapshot, what)
        self.check_inputs = check_inputs
        self.n_runs = 0
        self.expected_refusals = 0
        self.run_labels = []

    def new(self, precision, debug=None):
        from cheval import ChoiceModel
        self.real.append(self.ctx.sut('ChoiceModel()', lambda: ChoiceModel(precision=precision)))
        self.ref.append(RefModel(precision))
        self.nodes.append({})

    def give(self, obj, what):
        if self.check_inputs:
            self.inputs.append((obj, snapshot(obj), what))
        return obj

    def verify_inputs(self, when):
        for obj, snap, what in self.inputs:
            if not same_snapshot(snapshot(obj), snap):
                self.ctx.fail(f'{when}: {what} was modified, from {str(snap)[:400]} to {str(snapshot(obj))[:400]}')

    def go(self):
        if not self.real:
            self.new(self.case.get('precision', 8))
        for step, (slot, op, *args) in enumerate(self.case['ops']):
            self.step = f'step {step} {op} of model {slot}'
            getattr(self, 'op_' + op)(slot, *args)
            if self.check_inputs and op in ('run', 'discrete', 'preval', 'copy', 'subset', 'assign', 'partial'):
                self.verify_inputs(self.step)

    # Individual operations
    def op_add(self, slot, path, scale):
        m, ref = self.real[slot], self.ref[slot]
        path, nodes = tuple(path), self.nodes[slot]
        parent = m if len(path) == 1 else nodes[path[:-1]]
        for p in [p for p in nodes if p[:len(path)] == path]:
            del nodes[p]
        nodes[path] = self.ctx.sut(self.step, parent.add_choice, path[-1], scale)
        ref.add(path, scale)

    def op_units(self, slot, units):
        m, ref = self.real[slot], self.ref[slot]
        index = models.make_units(units)
        self.ctx.sut(self.step, setattr, m, 'decision_units', index)
        ref.set_units(units)

    def op_declare(self, slot, name):
        m, ref, spec = self.real[slot], self.ref[slot], self.specs[name]
        self.ctx.sut(self.step, declare, m, name, spec)
        ref.declare(name, spec)

    def op_assign(self, slot, name, data):
        m, ref = self.real[slot], self.ref[slot]
        spec = ref.symbols[name][0]
        real_data = self.give(make_data(m, ref, spec, data), f'data given to {name}')
        if isinstance(data, dict) and data.get('net'):
            for target in TARGETS[-1][1:]:
                self.give(target, f'a frame linked to the table given to {name}')
        self.ctx.sut(f'{self.step} to {name}', lambda: m[name].assign(real_data))
        ref.assign(name, data)

    def op_expr(self, slot, src, filter_, group, tol):
        m, ref = self.real[slot], self.ref[slot]
        text = src if filter_ is None else f'{src} @ {filter_}'
        self.ctx.sut(f'{self.step} {text!r}', m.expressions.append, text, group)
        ref.append(src, filter_, group, tol)

    def op_drop(self, slot, group):
        self.ctx.sut(self.step, self.real[slot].expressions.drop_group, group)
        del self.ref[slot].groups[group]

    def op_clear_expr(self, slot):
        self.ctx.sut(self.step, self.real[slot].expressions.clear)
        self.ref[slot].exprs, self.ref[slot].groups = [], {}

    def op_clear_scope(self, slot):
        self.ctx.sut(self.step, self.real[slot].clear_scope)
        self.ref[slot].clear_scope()

    def op_partial(self, slot, data):
        import numpy as np
        import pandas as pd
        m, ref = self.real[slot], self.ref[slot]
        if not ref.tree_ok() or ref.units is None:
            self.not_ready(m.add_partial_utilities, pd.DataFrame([[0.0]]))
            return
        values = np.array(data['values'], dtype=data['dtype']).reshape(len(data['rows']), len(data['cols']))
        if data.get('order') == 'F':
            values = np.asfortranarray(values)
        frame = self.give(pd.DataFrame(values, index=m.decision_units.take(data['rows']),
                                       columns=m.choices.take(data['cols'])), 'a table of partial utilities')
        all_rows = list(data['rows']) == list(range(ref.n()))
        all_cols = list(data['cols']) == list(range(len(ref.tree)))
        self.ctx.sut(self.step, m.add_partial_utilities, frame, reindex_rows=not all_rows or data.get('reindex', False),
                     reindex_columns=not all_cols or data.get('reindex', False))
        ref.add_partial(data)

    def not_ready(self, fn, *args, **kwargs):
        from cheval import ModelNotReadyError
        self.expected_refusals += 1
        self.ctx.refused(self.step, ModelNotReadyError, fn, *args, **kwargs)

    def out_of_bounds(self, fn, *args, **kwargs):
        UtilityBoundsError = models.bounds_error()
        self.expected_refusals += 1
        self.ctx.refused(self.step, UtilityBoundsError, fn, *args, **kwargs)

    def op_preval(self, slot, group, drop, cleanup, threads):
        m, ref = self.real[slot], self.ref[slot]
        call = dict(group=group, n_threads=threads, drop_group=drop, cleanup_scope=cleanup)
        if group not in ref.groups:
            self.ctx.refused(self.step, (KeyError, Exception), lambda: m.preval(**call))
            return
        try:
            ref.preval(group, drop, cleanup)
        except NotReady:
            self.not_ready(m.preval, **call)
            return
        except OutOfBounds:
            self.out_of_bounds(m.preval, **call)
            return
        self.ctx.sut(self.step, m.preval, **call)

    def op_validate(self, slot, group):
        m, ref = self.real[slot], self.ref[slot]
        if group is not None and group not in ref.groups:
            self.ctx.refused(self.step, Exception, m.validate, group=group)
        elif ref.ready(group):
            self.ctx.sut(self.step, m.validate, group=group)
        else:
            self.not_ready(m.validate, group=group)

    def op_debug(self, slot, position):
        m = self.real[slot]
        m.debug_id = None if position is None else m.decision_units[position]

    def op_copy(self, slot, flags):
        self.real.append(self.ctx.sut(self.step, self.real[slot].copy, **flags))
        self.ref.append(self.ref[slot].copy(flags))
        self.nodes.append(dict(self.nodes[slot]))

    def op_subset(self, slot, mask):
        import pandas as pd
        m = self.real[slot]
        series = self.give(pd.Series(mask, index=m.decision_units, dtype=bool), 'the mask')
        self.real.append(self.ctx.sut(self.step, m.copy_subset, series))
        self.ref.append(self.ref[slot].subset(mask))
        self.nodes.append(dict(self.nodes[slot]))

    def op_run(self, slot, group, threads, scale, check, clear):
        import numpy as np
        m, ref = self.real[slot], self.ref[slot]

        def call():
            p, top, terms = m.run_stochastic(n_threads=threads, clear_scope=clear, group=group, scale_utilities=scale,
                                             check_infeasible=check)
            return (np.asarray(p.values, dtype='f8'), list(p.columns), list(p.index), np.asarray(top.values, 'f8'),
                    list(top.index), np.asarray(terms.values, 'f8'), list(terms.columns), list(terms.index))
        if group is not None and group not in ref.groups:
            self.ctx.refused(self.step, Exception, call)
            return
        try:
            expected, utils = ref.expected(group, scale, check)
        except NotReady:
            self.not_ready(call)
            return
        except OutOfBounds:
            self.out_of_bounds(call)
            return
        self.n_runs += 1
        results = self.ctx.sut(self.step, call)
        compare(self.ctx, self.step, ref, results, expected, utils, ref.tol(group))
        self.run_labels.append((slot, group))
        if clear:
            ref.clear_scope()

    def op_discrete(self, slot, seed, draws, threads, scale, clear):
        """Compares with a newly made equal model, which gets the total utilities at once"""
        import numpy as np
        m, ref = self.real[slot], self.ref[slot]

        def call(model=m, clear=clear):
            r, ls = model.run_discrete(random_seed=seed, n_draws=draws, astype='index', squeeze=False,
                                       n_threads=threads, clear_scope=clear, scale_utilities=scale)
            return np.asarray(r.values), list(r.index), np.asarray(ls.values, 'f8')
        try:
            expected, utils = ref.expected(None, scale, True)
        except NotReady:
            self.not_ready(call)
            return
        except OutOfBounds:
            self.out_of_bounds(call)
            return
        self.n_runs += 1
        got, index, ls = self.ctx.sut(self.step, call)
        self.ctx.require(index == models.unit_list(ref.units), lambda: f'{self.step}: index {index}')
        require_list(self.ctx, f'{self.step}: logsums', ls, [top for _, top, _ in expected],
                     rel=rel_tol(ref, ref.tol()))
        if ref.tol() == exact_tol(ref):  # Otherwise the sums could be rounded differently
            fresh = models.build_model(ref.tree_list, ref.units, utils, ref.precision, 'partial')
            want, _, _ = self.ctx.sut('discrete run of a new equal model', call, fresh, False)
            self.ctx.require(got.tolist() == want.tolist(),
                             lambda: f'{self.step}: choices {got.tolist()} differ from those of a new equal model, {want.tolist()}')
        if clear:
            ref.clear_scope()


def exact_tol(ref):
    return sum(1e-12 for _ in ref.selected())


def declare(model, name, spec):
    kind = spec['kind']
    if kind == 'number':
        model.declare_number(name)
    elif kind == 'vector':
        model.declare_vector(name, spec['orient'])
    elif kind == 'table':
        if 'mandatory' in spec:
            model.declare_table(name, spec['orient'], mandatory_attributes=set(spec['mandatory']),
                                allow_links=spec['links'])
        else:
            model.declare_table(name, spec['orient'])
    elif 'reindex' in spec:
        model.declare_matrix(name, spec['orient'], fill_value=spec['fill'], reindex_rows=spec['reindex'][0],
                             reindex_cols=spec['reindex'][1])
    else:
        model.declare_matrix(name, spec['orient'], fill_value=spec['fill'])


def rel_tol(ref, tol_u):
    scales = [s for s in ref.tree.values()] or [1.0]
    return max(2e-3 if ref.precision == 4 else 1e-8, 4 * tol_u / min(scales))


def compare(ctx, what, ref, results, expected, utils, tol_u):
    import numpy as np
    p, p_cols, p_rows, top, top_rows, terms, t_cols, t_rows = results
    tree = ref.tree_list
    d = models.depth(tree)
    leaf_labels = [models.label(x, d) for x in models.leaves(tree)]
    units = models.unit_list(ref.units)
    ctx.require(p_cols == leaf_labels, lambda: f'{what}: columns of probabilities {p_cols} are not {leaf_labels}')
    ctx.require(t_cols == models.labels(tree), lambda: f'{what}: columns of terms {t_cols} are not {models.labels(tree)}')
    for index in (p_rows, top_rows, t_rows):
        ctx.require(index == units, lambda: f'{what}: index {index} is not {units}')
    rel = rel_tol(ref, tol_u)
    for i, (ep, etop, eterms) in enumerate(expected):
        for j, (path, _) in enumerate(tree):
            if not same_value(terms[i, j], eterms[j], rel, 1e-37 if ref.precision == 4 else 1e-250):
                ctx.fail(f'{what}: the utility of {path} for unit {units[i]!r} should be {utils[i][j]} (logsum term '
                         f'{eterms[j]}), but the logsum term is {terms[i, j]} (row {terms[i].tolist()}, expected {eterms}; '
                         f'expressions {[e[0] for e in ref.selected()]})')
        for j, path in enumerate(models.leaves(tree)):
            e = ep[tuple(path)]
            ctx.require(same_value(p[i, j], e, rel, rel), lambda: f'{what}: probability of {path} for unit {units[i]!r} '
                                                                 f'is {p[i, j]}, expected {e}')
        ctx.require(same_value(top[i], etop, rel), lambda: f'{what}: logsum of unit {units[i]!r} is {top[i]}, expected {etop}')

# endregion
# region Generation


class HistoryGen:
    """Draws the operations of a history, keeping reference models up to date so that it knows what is possible"""

    def __init__(self, draw, precision=None, nested=None, max_nodes=6, max_units=4, functions=True, kinds=None,
                 max_symbols=6, odd_names=False, links=False):
        self.draw = draw
        self.links = links
        self.precision = draw(st.sampled_from([8, 8, 8, 4])) if precision is None else precision
        self.functions = functions
        self.ops = []
        self.refs = [RefModel(self.precision)]
        self.symbols = self.make_symbols(kinds, max_symbols)
        self.tree = draw(models.trees(max_nodes=max_nodes, max_depth=3, nested=nested, odd_names=odd_names))
        self.max_units = max_units

    def pick(self, options):
        return self.draw(st.sampled_from(options))

    def chance(self, one_in):
        return self.draw(st.integers(0, one_in - 1)) == 0

    def make_symbols(self, kinds, max_symbols):
        kinds = kinds or ['number', 'vector', 'vector', 'table', 'table', 'matrix', 'matrix']
        names = self.draw(st.lists(st.sampled_from(SYMBOL_NAMES), min_size=1, max_size=max_symbols, unique=True))
        out = {}
        fine = 'fine' if self.precision == 8 else 'float'
        for name in names:
            kind = self.pick(kinds)
            spec = {'kind': kind, 'orient': self.draw(st.integers(0, 1))}
            if kind == 'vector':
                spec['dtype'] = self.pick(['float', fine, 'int', 'bool', 'f4', 'texto', 'textc', 'i4', 'uint'])
            elif kind == 'table':
                attrs = self.draw(st.lists(st.sampled_from(ATTRS), min_size=1, max_size=3, unique=True))
                spec['attrs'] = {a: self.pick(['float', fine, 'int', 'bool', 'f4', 'texto', 'textc']) for a in attrs}
                if self.links and self.chance(2):
                    spec['net'] = True
            elif kind == 'matrix':
                spec['dtype'] = self.pick(['float', 'float', fine, 'int', 'f4', 'bool'])
                spec['fill'] = self.pick({'float': [0, 0, 0.5, -2], 'fine': [0, 0, 0.5, -2], 'f4': [0, 0.25], 'int': [0, 1, -2],
                                          'bool': [False, True]}[spec['dtype']])
            out[name] = spec
        return out

    def leaves(self, ref):
        out = []
        for name, spec in self.symbols.items():
            if spec['kind'] == 'number':
                out.append(leaf(name, 'float'))
            elif spec['kind'] == 'table':
                out.extend(leaf(f'{name}.{a}', k) for a, k in spec['attrs'].items())
                if spec.get('net'):
                    out.extend(leaf(f'{name}.{a}', k) for a, k in LINKED_ATTRS.items())
            else:
                out.append(leaf(name, spec['dtype']))
        if ref.tree and self.chance(2):
            out.append(Leaf(self.dict_literal(ref), 'dict', 2.0, 3))
        return out

    def dict_literal(self, ref):
        tree = ref.tree_list
        paths = [p for p, _ in tree]
        d = models.depth(tree)
        chosen = self.draw(st.lists(st.sampled_from(range(len(paths))), min_size=1, max_size=3, unique=True))
        items, covered = [], []
        for k in chosen:
            path = paths[k]
            keys = [path]
            if models.children(tree, path) and d > 1:
                keys = self.pick([[path], [path + ['_']], [path, path + ['_']], [path + ['_'], path]])
            for key in keys:
                base = key[:-1] if key[-1] == '_' else key
                # Nothing should be named twice
                cells = {tuple(p) for p in paths if (p[:len(base)] == base and p != base if key[-1] == '_' else p == base)}
                if any(cells & c for c in covered):
                    continue
                covered.append(cells)
                v = self.draw(st.integers(-16, 16)) / 8
                text = '.'.join(key)
                if not all(x.isidentifier() and x not in ('True', 'None') for x in key):
                    if len(key) > 1:
                        continue
                    text = repr(key[0])
                elif len(key) == 1 and self.chance(4):
                    text = repr(key[0])
                items.append(f'{text}: {v if not self.chance(3) else int(v)}')
        return '{' + ', '.join(items or [f'{paths[0][0]!r}: 1']) + '}'

    def expression(self, ref, depth=3):
        """Returns source, filter, tolerance"""
        g = Gen(self.draw, self.leaves(ref), functions=self.functions, nan_words=False)
        form = self.draw(st.integers(0, 9))
        if form <= 2:
            node = g.leaf()
        elif form <= 7:
            node = g.exact(self.draw(st.integers(1, depth)))
        elif form == 8 and self.functions:
            node = g.number(depth)
        else:
            node = g.exact(depth)
        filter_ = None
        if ref.tree and self.chance(4):
            filter_ = '.'.join(self.pick(list(ref.tree)))
        return node.src, filter_, tolerance(node)

    # Emitting

    def emit(self, slot, op, *args):
        self.ops.append([slot, op, *args])
        ref = self.refs[slot]
        if op == 'add':
            ref.add(*args)
        elif op == 'units':
            ref.set_units(*args)
        elif op == 'declare':
            ref.declare(args[0], self.symbols[args[0]])
        elif op == 'assign':
            ref.assign(*args)
        elif op == 'expr':
            ref.append(*args)
        elif op == 'drop':
            del ref.groups[args[0]]
        elif op == 'clear_expr':
            ref.exprs, ref.groups = [], {}
        elif op == 'clear_scope':
            ref.clear_scope()
        elif op == 'partial' and ref.tree_ok() and ref.units is not None:
            ref.add_partial(*args)
        elif op == 'preval' and args[0] in ref.groups:
            try:
                ref.preval(*args[:3])
            except (NotReady, OutOfBounds):
                pass
        elif op == 'copy':
            self.refs.append(ref.copy(*args))
        elif op == 'subset':
            self.refs.append(ref.subset(*args))

    def op_tree(self, slot=0):
        for path, scale in self.tree:
            self.emit(slot, 'add', path, scale)

    def op_units(self, slot=0):
        self.emit(slot, 'units', self.draw(models.unit_labels(1, self.max_units)))

    def op_declare(self, slot, name):
        self.emit(slot, 'declare', name)

    def op_expr(self, slot, group=None):
        src, filter_, tol = self.expression(self.refs[slot])
        self.emit(slot, 'expr', src, filter_, group, tol)

    def can_assign(self, slot, name):
        ref = self.refs[slot]
        if name not in ref.symbols:
            return False
        return ref.symbols[name][0]['kind'] == 'number' or (ref.units is not None and ref.tree_ok())

    def op_assign(self, slot, name, bad=None):
        self.emit(slot, 'assign', name, self.data(slot, name))

    def data(self, slot, name):
        ref = self.refs[slot]
        spec = ref.symbols[name][0]
        if spec['kind'] == 'number':
            return self.draw(values_of('float'))
        n_units, n_choices = ref.n(), len(ref.tree)
        if spec['kind'] == 'matrix':
            rows, cols = list(range(n_units)), list(range(n_choices))
            form = self.draw(st.integers(0, 5))
            if form >= 2:
                if form in (2, 4, 5):
                    cols = self.draw(st.lists(st.sampled_from(cols), min_size=1, max_size=n_choices, unique=True))
                if form in (3, 4, 5):
                    rows = self.draw(st.lists(st.sampled_from(rows), min_size=1, max_size=n_units, unique=True))
            elif form == 1:
                cols = self.draw(st.permutations(cols))
            if 'reindex' in spec:
                rows = rows if spec['reindex'][0] else list(range(n_units))
                cols = cols if spec['reindex'][1] else list(range(n_choices))
            out = {'rows': rows, 'cols': list(cols), 'order': self.pick(['C', 'C', 'F']),
                   'values': [[self.draw(values_of(spec['dtype'])) for _ in cols] for _ in rows]}
            lines = len(rows) if spec['orient'] else len(cols)
            if spec['dtype'] in ('float', 'fine') and lines > 1 and self.chance(4):
                # Columns of other types, besides one or more of the matrix's type
                out['types'] = {}
                for k in self.draw(st.lists(st.sampled_from(range(lines)), min_size=1, max_size=lines - 1, unique=True)):
                    out['types'][str(k)] = self.pick(['int', 'int', 'i4', 'f4'])
                    whole = values_of(out['types'][str(k)])
                    for line in range(len(cols) if spec['orient'] else len(rows)):
                        i, j = (k, line) if spec['orient'] else (line, k)
                        out['values'][i][j] = self.draw(whole)
            return out
        n = n_choices if spec['orient'] else n_units
        if spec['kind'] == 'vector':
            return {'form': self.pick(['series', 'array']) if spec['dtype'] not in ('texto', 'textc') else 'series',
                    'values': [self.draw(values_of(spec['dtype'])) for _ in range(n)]}
        cols = [[a, k, [self.draw(values_of(k)) for _ in range(n)]] for a, k in spec['attrs'].items()]
        if self.chance(3):
            cols.append(['unused', 'float', [0.0] * n])
        if spec.get('net'):
            pool = self.draw(st.lists(st.integers(0, 9), min_size=1, max_size=4, unique=True))
            number = values_of('float')
            zones = [[z, self.draw(number), self.draw(st.integers(-2, 2)), self.pick(TEXTS)] for z in pool]
            rows = list(range(n)) + self.draw(st.lists(st.sampled_from(range(n)), min_size=1, max_size=3))
            items = [[r, self.draw(number) / 2, self.draw(st.integers(-1, 1))] for r in rows]
            keys = [self.pick(pool) for _ in range(n)]
            items = self.draw(st.permutations(items))
            return {'cols': cols, 'linked': True,
                    'net': {'keys': keys, 'zones': zones, 'items': list(items), 'wrap': self.draw(st.booleans())}}
        return {'cols': cols, 'linked': spec.get('links', True) and self.draw(st.booleans())}

    def partial(self, slot):
        ref = self.refs[slot]
        rows, cols = list(range(ref.n())), list(range(len(ref.tree)))
        form = self.draw(st.integers(0, 5))
        if form in (1, 3, 5):
            cols = self.draw(st.lists(st.sampled_from(cols), min_size=1, max_size=len(cols), unique=True))
        if form in (2, 3, 4):
            rows = self.draw(st.lists(st.sampled_from(rows), min_size=1, max_size=len(rows), unique=True))
        dtype = self.pick(['f8', 'f8', 'f4'])
        kind = 'fine' if dtype == 'f8' and self.precision == 8 and self.draw(st.booleans()) else 'float'
        return {'rows': rows, 'cols': cols, 'dtype': dtype, 'order': self.pick(['C', 'F']),
                'reindex': self.draw(st.booleans()),
                'values': [[self.draw(values_of(kind)) for _ in cols] for _ in rows]}

    def in_domain(self, slot, group=None, scale=True):
        try:
            self.refs[slot].expected(group, scale)
        except OutsideDomain:
            return False
        except (NotReady, OutOfBounds):
            return True
        return True

    def fails(self, slot, group=None, scale=True, check=True):
        try:
            self.refs[slot].expected(group, scale, check)
        except (NotReady, OutOfBounds):
            return True
        return False

    def op_run(self, slot, group=None, clear=False, check=True):
        scale = self.pick([True, True, False])
        if not self.in_domain(slot, group, scale):
            return
        if clear and self.fails(slot, group, scale, check):
            clear = False  # What is left in the scope is not specified then
        self.emit(slot, 'run', group, self.draw(st.integers(1, 4)), scale, check, clear)
        if clear:
            self.refs[slot].clear_scope()

    def op_discrete(self, slot, clear=False):
        scale = self.pick([True, True, False])
        if not self.in_domain(slot, None, scale):
            return
        if clear and self.fails(slot, None, scale):
            clear = False
        self.emit(slot, 'discrete', self.draw(st.integers(0, 1000)), self.pick([1, 1, 2, 5]), self.draw(st.integers(1, 4)),
                  scale, clear)
        if clear:
            self.refs[slot].clear_scope()

    def complete(self, slot=0):
        """Makes sure that a model has everything it needs"""
        ref = self.refs[slot]
        if not ref.tree:
            self.op_tree(slot)
        if ref.units is None:
            self.op_units(slot)
        for name in self.symbols:
            if name not in ref.symbols:
                self.op_declare(slot, name)
            if ref.symbols[name][1] is None:
                self.op_assign(slot, name)

    def case(self):
        return {'precision': self.precision, 'symbols': self.symbols, 'ops': self.ops}

# endregion
