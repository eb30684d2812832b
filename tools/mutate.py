#!/usr/bin/env python3
"""Mutation campaign used while building the checks (no check depends on it).

  mutate.py list                                   all mutants of /repo's cheval
  mutate.py run OUT.jsonl N SEED WORKERS [FILE..]  tries N random mutants: those which pass the stable tests are given to
                                                   the checks, in the order of relevance for the mutated file
  mutate.py retry IN.jsonl OUT.jsonl WORKERS      tries the survivors of IN.jsonl again
"""
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['api.py', 'core.py', 'model.py', 'utils.py', 'ldf/api.py', 'ldf/missing_data.py', 'parsing/ast_transformer.py',
         'parsing/expr_items.py', 'parsing/expressions.py']
LDF = ['C20', 'C16', 'C14', 'C15', 'C18', 'C17', 'C19', 'C08']
MODEL = ['C06', 'C09', 'C10', 'C12', 'C11', 'C13', 'C05', 'C04', 'C02', 'C03', 'C01', 'C07', 'C21', 'C22']
ORDER = {
    'api.py': ['C07', 'C06', 'C12', 'C10', 'C11', 'C09', 'C13', 'C19', 'C08', 'C21'],
    'core.py': ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C10', 'C09'],
    'model.py': ['C06', 'C09', 'C10', 'C12', 'C11', 'C13', 'C05', 'C04', 'C02', 'C03', 'C01', 'C07', 'C19', 'C21', 'C22'],
    'utils.py': ['C08', 'C06', 'C19', 'C09', 'C12', 'C07', 'C11'],
    'ldf/api.py': LDF, 'ldf/missing_data.py': ['C17', 'C14', 'C15', 'C16', 'C19'],
    'parsing/ast_transformer.py': ['C08', 'C06', 'C19', 'C12'], 'parsing/expr_items.py': ['C19', 'C06', 'C08', 'C12'],
    'parsing/expressions.py': ['C08', 'C06', 'C19', 'C12', 'C10', 'C21'],
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.Mod: '*'}


def mutants(name):
    path = os.path.join(REPO, 'cheval', name)
    source = open(path).read()
    lines = source.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line))
    text = source.encode()
    byte_starts = [0]
    for line in lines:
        byte_starts.append(byte_starts[-1] + len(line.encode()))

    def pos(line, col):
        return byte_starts[line - 1] + col

    def span(node):
        return pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)

    out = []

    def add(node, a, b, new, what):
        out.append({'file': name, 'line': node.lineno, 'a': a, 'b': b, 'new': new, 'what': what,
                    'old': text[a:b].decode()[:80]})

    tree = ast.parse(source)
    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body:
            first = node.body[0]
            if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant):
                docs.add(first)
        if isinstance(node, ast.FunctionDef):  # Annotations are of no effect
            for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
                if a.annotation:
                    docs.update(ast.walk(a.annotation))
            if node.returns:
                docs.update(ast.walk(node.returns))
    for node in ast.walk(tree):
        if node in docs:
            continue
        if isinstance(node, ast.Compare):
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                a, b = span(left)[1], span(right)[0]
                add(node, a, b, f' {CMP[type(op)]} ', 'comparison')
                left = right
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            a, b = span(node.left)[1], span(node.right)[0]
            if b"(" not in text[a:b] and b")" not in text[a:b]:
                add(node, a, b, f' {BIN[type(node.op)]} ', 'operator')
        elif isinstance(node, ast.BoolOp):
            for x, y in zip(node.values, node.values[1:]):
                a, b = span(x)[1], span(y)[0]
                if b"(" not in text[a:b] and b")" not in text[a:b]:
                    add(node, a, b, ' or ' if isinstance(node.op, ast.And) else ' and ', 'and/or')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
            a, b = span(node)
            add(node, a, span(node.operand)[0], '', 'unary')
        elif isinstance(node, ast.Constant) and isinstance(node.value, (bool, int, float)):
            a, b = span(node)
            if isinstance(node.value, bool):
                add(node, a, b, str(not node.value), 'constant')
            else:
                add(node, a, b, str(node.value + 1), 'constant')
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
            a, b = span(node.test)
            add(node, a, b, f'(not ({text[a:b].decode()}))', 'negated condition')
            add(node, a, b, 'False', 'condition False')
            if isinstance(node, ast.If):
                add(node, a, b, 'True', 'condition True')
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break)) or \
                (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
            a, b = span(node)
            add(node, a, b, 'pass', 'statement')
            if isinstance(node, ast.AugAssign) and type(node.op) in BIN:
                x, y = span(node.target)[1], span(node.value)[0]
                add(node, x, y, f' {BIN[type(node.op)]}= ', 'augmented')
                add(node, x, y, ' = ', 'augmented')
        elif isinstance(node, ast.Call):
            for k in node.keywords:
                if k.arg:
                    a, b = span(k)
                    rest = text[b:b + 40].decode(errors='ignore')
                    if rest.lstrip().startswith(','):
                        b += len(rest) - len(rest.lstrip()) + 1
                    add(node, a, b, '', 'keyword')
            if len(node.args) == 2 and not node.keywords:
                (a, b), (c, d) = span(node.args[0]), span(node.args[1])
                add(node, a, d, (text[c:d] + text[b:c] + text[a:b]).decode(), 'swapped arguments')
        elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            pass
    good = []
    for m in out:
        new = (text[:m['a']] + m['new'].encode() + text[m['b']:]).decode()
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        if new != source:
            m['source'] = new
            good.append(m)
    return good


def run_one(args):
    m, no = args
    worker = multiprocessing.current_process()._identity[0]
    home = f'/tmp/mut/w{worker}'
    if not os.path.exists(home):
        os.makedirs(home)
        subprocess.run(['cp', '-a', REPO, home + '/repo'], check=True)
    repo = home + '/repo'
    target = os.path.join(repo, 'cheval', m['file'])
    original = open(os.path.join(REPO, 'cheval', m['file'])).read()
    for name in FILES:
        shutil.copyfile(os.path.join(REPO, 'cheval', name), os.path.join(repo, 'cheval', name))
    result = {k: m[k] for k in ('file', 'line', 'what', 'old', 'new')}
    result['no'] = no
    env = dict(os.environ, NUMBA_CACHE_DIR=home + '/nbc-tests', VERIF_DEV_CACHE=home + '/nbc', VERIF_REPO=repo,
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_SEED='1', VERIF_TIER='quick',
               VERIF_OUT=home, OMP_NUM_THREADS='1')
    try:
        if m['file'] == 'core.py':
            shutil.rmtree(home + '/nbc', ignore_errors=True)
            shutil.rmtree(home + '/nbc-tests', ignore_errors=True)
        with open(target, 'w') as f:
            f.write(m['source'])
        done = subprocess.run(
            ['timeout', '-k', '5', '200', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=100',
             '--deselect', DESELECT, 'testing'], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if done.returncode != 0:
            result['status'] = 'tests'
            return result
        tried = ORDER[m['file']]
        for pid in tried:
            done = subprocess.run(['timeout', '-k', '5', '800', 'python3', os.path.join(VERIF, 'harness', 'run.py'), pid], env=env,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if done.returncode == 1:
                result['status'] = 'caught'
                result['by'] = pid
                result['message'] = done.stdout[:300]
                return result
            if done.returncode != 0:
                result.setdefault('odd', []).append([pid, done.returncode, done.stdout[-1500:]])
        result['status'] = 'SURVIVED'
        return result
    except Exception as e:
        result['status'] = f'error {e!r}'
        return result
    finally:
        with open(target, 'w') as f:
            f.write(original)
        if m['file'] == 'core.py':
            shutil.rmtree(home + '/nbc', ignore_errors=True)
            shutil.rmtree(home + '/nbc-tests', ignore_errors=True)


DESELECT = 'testing/test_ldf.py::test_choice_model_evaluate'


def main():
    if sys.argv[1] == 'retry':
        keys = ('file', 'line', 'what', 'old', 'new')
        wanted = {tuple(r[k] for k in keys) for r in map(json.loads, open(sys.argv[2])) if r['status'] == 'SURVIVED'}
        every = [m for name in FILES for m in mutants(name) if tuple(m[k] for k in keys) in wanted]
        with multiprocessing.Pool(int(sys.argv[4])) as pool, open(sys.argv[3], 'a') as f:
            for r in pool.imap_unordered(run_one, [(m, i) for i, m in enumerate(every)]):
                f.write(json.dumps(r) + '\n')
                f.flush()
        return
    names = FILES if sys.argv[1] == 'list' or len(sys.argv) < 7 else sys.argv[6:]
    every = [m for name in names for m in mutants(name)]
    if sys.argv[1] == 'list':
        for name in names:
            print(name, sum(m['file'] == name for m in every))
        return
    out, n, seed, workers = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    random.Random(seed).shuffle(every)
    with multiprocessing.Pool(workers) as pool, open(out, 'a') as f:
        for r in pool.imap_unordered(run_one, [(m, i) for i, m in enumerate(every[:n])]):
            f.write(json.dumps(r) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
