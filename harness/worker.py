"""Runs one shard of a check (or a replay, or the warm-up) in its own process, and writes what happened as JSON."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import boot
boot.setup()

import collections
import importlib
import json
import time
import traceback

from harness.core import Ctx, HarnessError, Violation, canon, case_hash, raised_by_code_under_test


def load(pid):
    return importlib.import_module('checks.' + pid.lower())


def run_shard(pid, shard, nshards, tier, seed, out_path, budget):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 60 if tier == 'quick' else 240

    module = load(pid)
    start = time.monotonic()
    result = {'evaluations': 0, 'hashes': [], 'labels': {}, 'samples': [], 'violation': None, 'error': None,
              'inconclusive': [], 'parts': {}}
    labels = collections.Counter()
    hashes = set()

    class OutOfTime(Exception):
        pass

    try:
        for part_no, part in enumerate(module.PARTS):
            n = max(1, int(round(part.examples[tier] / nshards)))
            ctx = Ctx(tier)
            state = {'violation': None, 'stopped': False, 'n': 0, 'nt': 0, 'samples': 0}

            def body(case):
                if state['violation'] is None and time.monotonic() - start > budget:
                    state['stopped'] = True
                    return  # Inconclusive from here on
                ctx.begin()
                with open(out_path + '.case', 'w') as f:  # In case the process crashes
                    json.dump({'part': part.name, 'case': case, 'size': 0,
                               'message': 'the process crashed while running this case'}, f)
                try:
                    part.run(case, ctx)
                except Violation as e:
                    size = len(canon(case))
                    state['violation'] = {'part': part.name, 'case': case, 'message': str(e), 'size': size}
                    raise Violation(str(e)) from None
                except Exception as e:
                    if not isinstance(e, HarnessError) and raised_by_code_under_test(e):
                        message = f'unexpected {type(e).__name__}: {e}\n{traceback.format_exc()[-2000:]}'
                        size = len(canon(case))
                        state['violation'] = {'part': part.name, 'case': case, 'message': message, 'size': size}
                        raise Violation(message) from None
                    raise HarnessError(f'{pid}/{part.name}: {type(e).__name__}: {e}\n{traceback.format_exc()}\n'
                                       f'case={canon(case)[:3000]}') from None
                if state['violation'] is not None:
                    return
                state['n'] += 1
                for k, v in ctx.labels.items():
                    labels[f'{part.name}:{k}'] += v
                if ctx.nontrivial:
                    h = case_hash([part.name, case])
                    if h not in hashes:
                        hashes.add(h)
                        state['nt'] += 1
                        text = canon(case)
                        if state['samples'] < 2 and state['nt'] % 7 == 1 and len(text) < 4000:
                            result['samples'].append({'part': part.name, 'case': case})
                            state['samples'] += 1

            test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                            report_multiple_bugs=False, print_blob=False,
                            suppress_health_check=list(HealthCheck),
                            phases=[Phase.generate, Phase.shrink])(
                given(part.strategy(tier))(body))
            test = hypothesis.seed(seed * 1000003 + shard * 1009 + part_no)(test)
            try:
                test()
            except HarnessError:
                raise
            except Violation:
                pass
            except Exception as e:
                # e.g. Flaky: the failure was seen with the real code, but not every time
                if state['violation'] is None:
                    raise
                state['violation']['message'] += f' [{type(e).__name__}: not on every execution]'
            except BaseException as e:
                if state['violation'] is None:
                    raise HarnessError(f'{type(e).__name__}: {e}')
            result['evaluations'] += state['n']
            result['parts'][part.name] = {'evaluations': state['n'], 'distinct_nontrivial': state['nt']}
            if state['stopped']:
                result['inconclusive'].append(f'{part.name}: time budget used up after {state["n"]} of {n} cases')
            if state['violation'] is not None:
                result['violation'] = state['violation']
                break
    except Exception as e:
        result['error'] = f'{type(e).__name__}: {e}\n{traceback.format_exc()}'
    result['hashes'] = sorted(hashes)
    result['labels'] = dict(labels)
    result['wall'] = time.monotonic() - start
    with open(out_path + '.tmp', 'w') as f:
        json.dump(result, f)
    os.replace(out_path + '.tmp', out_path)


def run_replay(pid, path):
    module = load(pid)
    with open(path) as f:
        replay = json.load(f)
    part = {p.name: p for p in module.PARTS}[replay['part']]
    for _ in range(3):  # More than once, for failures which depend on the timing of threads
        ctx = Ctx('quick')
        try:
            part.run(replay['case'], ctx)
        except Violation as e:
            print(str(e))
            return 1
        except Exception as e:
            if not raised_by_code_under_test(e):
                raise
            print(f'unexpected {type(e).__name__}: {e}')
            return 1
    return 0


def warm(pid):
    module = load(pid)
    if hasattr(module, 'warm'):
        module.warm()


if __name__ == '__main__':
    mode, pid = sys.argv[1:3]
    if mode == 'shard':
        shard, nshards, tier, seed, out_path, budget = sys.argv[3:9]
        run_shard(pid, int(shard), int(nshards), tier, int(seed), out_path, float(budget))
    elif mode == 'replay':
        sys.exit(run_replay(pid, sys.argv[3]))
    elif mode == 'warm':
        warm(pid)
