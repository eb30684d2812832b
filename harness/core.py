"""Shared pieces of every check: violations, the wrapper around calls of the code under test, and comparisons."""
from __future__ import annotations

import collections
import hashlib
import json
import math
import os
import traceback

from harness import boot


class Violation(Exception):
    """The property does not hold for the case being run"""


class HarnessError(Exception):
    """Something is wrong with the harness, nothing can be said about the property"""


def raised_by_code_under_test(e) -> bool:
    """Whether an exception came out of the package (or of what it called), rather than out of the harness"""
    inside = os.path.join(boot.REPO, 'cheval') + os.sep
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
    tb, last = e.__traceback__, None
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(here):
            last = False
        elif name.startswith(inside):
            last = True
        tb = tb.tb_next
    return bool(last)


def canon(case) -> str:
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def case_hash(case) -> str:
    return hashlib.sha1(canon(case).encode()).hexdigest()


class Ctx:
    """Passed to the checking functions. Collects what a single case turned out to exercise."""

    def __init__(self, tier='quick'):
        self.tier = tier
        self.totals = collections.Counter()
        self.begin()

    def begin(self):
        self.labels = collections.Counter()
        self.nontrivial = False
        self.excluded = False

    def label(self, name, n=1):
        self.labels[name] += n

    def label_if(self, cond, name):
        if cond:
            self.labels[name] += 1

    def fail(self, message):
        raise Violation(message)

    def require(self, cond, message):
        if not cond:
            raise Violation(message() if callable(message) else message)

    def sut(self, what, fn, *args, **kwargs):
        """Calls the code under test where it has to succeed"""
        try:
            return fn(*args, **kwargs)
        except Violation:
            raise
        except Exception as e:
            raise Violation(f'{what}: unexpected {type(e).__name__}: {str(e)[:300]}\n' +
                            ''.join(traceback.format_tb(e.__traceback__)[-3:]))

    def refused(self, what, types, fn, *args, **kwargs):
        """Calls the code under test where it has to raise one of the given exception types"""
        try:
            result = fn(*args, **kwargs)
        except types as e:
            return e
        except Violation:
            raise
        except Exception as e:
            raise Violation(f'{what}: refused with {type(e).__name__} ({str(e)[:200]}) instead of '
                            f'{getattr(types, "__name__", types)}')
        raise Violation(f'{what}: was not refused, returned {str(result)[:300]}')


def is_missing(x) -> bool:
    if x is None:
        return True
    try:
        if x != x:
            return True
    except Exception:
        pass
    return str(x) in ('NaT', 'nan')


def same_value(a, b, rel=0.0, abs_=0.0) -> bool:
    """Scalar comparison, where missing values equal each other"""
    ma, mb = is_missing(a), is_missing(b)
    if ma or mb:
        return ma and mb
    if isinstance(a, (bytes, str)) or isinstance(b, (bytes, str)):
        if isinstance(a, bytes):
            a = a.decode()
        if isinstance(b, bytes):
            b = b.decode()
        return a == b
    try:
        if a == b:
            return True
        if rel == 0.0 and abs_ == 0.0:
            return False
        fa, fb = float(a), float(b)
        if math.isinf(fa) or math.isinf(fb):
            return fa == fb
        return abs(fa - fb) <= max(abs_, rel * max(abs(fa), abs(fb)))
    except Exception:
        return False


def same_list(got, expected, rel=0.0, abs_=0.0) -> bool:
    got, expected = list(got), list(expected)
    return len(got) == len(expected) and all(same_value(g, e, rel, abs_) for g, e in zip(got, expected))


def require_list(ctx, what, got, expected, rel=0.0, abs_=0.0):
    got, expected = list(got), list(expected)
    if len(got) != len(expected):
        ctx.fail(f'{what}: {len(got)} values instead of {len(expected)}')
    for i, (g, e) in enumerate(zip(got, expected)):
        if not same_value(g, e, rel, abs_):
            ctx.fail(f'{what}: at position {i} got {g!r}, expected {e!r} (all: got {str(got)[:300]}, expected '
                     f'{str(expected)[:300]})')


def in_child(fn, case, ctx):
    """Runs fn(case, ctx) in a child process, for which nothing that the code under test keeps per process has been touched
    by the cases before. (The parent must not have used any threads.)"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                fn(case, ctx)
                reply = ('ok', '')
            except Violation as e:
                reply = ('violation', str(e))
            except Exception as e:
                kind = 'violation' if raised_by_code_under_test(e) else 'error'
                reply = (kind, f'unexpected {type(e).__name__}: {e}\n{traceback.format_exc()}')
            except BaseException as e:
                reply = ('error', f'{type(e).__name__}: {e}\n{traceback.format_exc()}')
            with os.fdopen(w, 'wb') as f:
                pickle.dump((reply, ctx.labels, ctx.nontrivial, ctx.excluded), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0 or not data:
        raise Violation(f'the process crashed while running this case (status {status})')
    (kind, text), ctx.labels, ctx.nontrivial, ctx.excluded = pickle.loads(data)
    if kind == 'violation':
        raise Violation(text)
    if kind == 'error':
        raise HarnessError(text)
