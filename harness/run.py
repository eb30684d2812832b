#!/usr/bin/env python3
"""Entry point of every check:  run.py <property id> [--replay FILE] [--tier quick|thorough]

Exit status: 0 the property held on everything explored, 1 a violation was found (and its shrunk case written to a
replay file), 2 the check could not give an answer.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
CONFIG = json.load(open(os.path.join(VERIF, 'harness', 'config.json')))
FINDINGS = os.path.join(VERIF, 'known_findings.txt')
OUT = os.environ.get('VERIF_OUT', VERIF)  # Where evidence and replays go


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    i = 1
    while i < len(args):
        if args[i] == '--replay':
            replay = args[i + 1]
        elif args[i] == '--tier':
            tier = args[i + 1]
        i += 2
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    config = dict(CONFIG['default'], **CONFIG.get(pid, {}))
    nshards = config['shards']
    budget = config['budget'][tier]

    start = time.monotonic()
    scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-')
    procs = []
    try:
        env = dict(os.environ)
        env.update({
            'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'NUMBA_NUM_THREADS': '4', 'NUMEXPR_MAX_THREADS': '8',
            'NUMEXPR_NUM_THREADS': '4', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
            # Fresh directories, so that nothing compiled from other sources can be picked up
            'NUMBA_CACHE_DIR': os.environ.get('VERIF_DEV_CACHE') or os.path.join(scratch, 'numba'),
            'PYTHONPYCACHEPREFIX': os.path.join(scratch, 'pyc'), 'TMPDIR': scratch, 'VERIF_TIER': tier,
        })
        env.pop('PYTHONPATH', None)
        if not config['jit']:
            env['NUMBA_DISABLE_JIT'] = '1'
        else:
            env.pop('NUMBA_DISABLE_JIT', None)
        worker = [PYTHON, '-W', 'ignore', os.path.join(VERIF, 'harness', 'worker.py')]

        if replay is not None:
            done = subprocess.run(worker + ['replay', pid, os.path.abspath(replay)], env=env, cwd=VERIF)
            if done.returncode == 1:
                print(f'VIOLATION property={pid} replay={replay}')
            return done.returncode if done.returncode in (0, 1) else 2

        if config['jit'] or config.get('warm'):
            done = subprocess.run(worker + ['warm', pid], env=env, cwd=VERIF, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True)
            if done.returncode != 0:  # The shards will tell why, by a case
                print(f'{pid}: the code under test could not be warmed up (status {done.returncode})')
                print(done.stdout[-1000:])

        outs = []
        for shard in range(nshards):
            out = os.path.join(scratch, f'shard{shard}.json')
            log = open(os.path.join(scratch, f'shard{shard}.log'), 'w')
            procs.append(subprocess.Popen(
                worker + ['shard', pid, str(shard), str(nshards), tier, str(seed), out, str(budget)], env=env,
                cwd=VERIF, stdout=log, stderr=subprocess.STDOUT))
            outs.append(out)

        hard_limit = budget + config['grace'][tier]
        results = [None] * nshards
        began = time.monotonic()
        while True:
            for n, out in enumerate(outs):
                if results[n] is None and procs[n].poll() is not None:
                    if os.path.exists(out):
                        results[n] = json.load(open(out))
                    else:
                        tail = open(out.replace('.json', '.log')).read()[-4000:]
                        if procs[n].returncode in (-11, -6, -8, -7) and os.path.exists(out + '.case'):
                            crashed = json.load(open(out + '.case'))  # SIGSEGV, SIGABRT, SIGFPE, SIGBUS
                            results[n] = {'violation': crashed}
                            continue
                        results[n] = {'error': f'shard ended with status {procs[n].returncode}\n{tail}', 'crash': True}
            if all(r is not None for r in results) or any(r and r.get('violation') for r in results):
                break
            if time.monotonic() - began > hard_limit:
                break
            time.sleep(0.2)
        for n, p in enumerate(procs):
            if p.poll() is None:
                case_file = outs[n] + '.case'
                if time.monotonic() - began > hard_limit and os.path.exists(case_file) and \
                        time.time() - os.path.getmtime(case_file) > 180:
                    stuck = json.load(open(case_file))
                    stuck['message'] = 'the code under test did not return within 180 s from this case'
                    results[n] = {'violation': stuck}
                p.kill()
                p.wait()

        finished = [r for r in results if r is not None]
        violations = [r['violation'] for r in finished if r.get('violation')]
        errors = [r['error'] for r in finished if r.get('error')]
        inconclusive = [x for r in finished for x in r.get('inconclusive', [])]
        if any(r is None for r in results) and not violations:
            inconclusive.append('some shards were stopped at the time limit')

        spec = importlib.util.spec_from_file_location('rules', os.path.join(VERIF, 'harness', 'rules.py'))
        rules = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(rules)

        hashes, labels, parts, samples = set(), {}, {}, []
        for r in finished:
            hashes.update(r.get('hashes', []))
            for k, v in r.get('labels', {}).items():
                labels[k] = labels.get(k, 0) + v
            for k, v in r.get('parts', {}).items():
                entry = parts.setdefault(k, {'evaluations': 0, 'distinct_nontrivial_per_shard': 0})
                entry['evaluations'] += v['evaluations']
                entry['distinct_nontrivial_per_shard'] += v['distinct_nontrivial']
            samples.extend(r.get('samples', []))
        by_part = {}
        for s in samples:
            by_part.setdefault(s['part'], []).append(s)
        samples = [s for group in by_part.values() for s in group[:3]]
        evidence = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': sum(r.get('evaluations', 0) for r in finished),
                'distinct_nontrivial': len(hashes),
                'rule': rules.RULES[pid],
                'samples': samples or [v for v in violations[:1]],
                'classification': dict(sorted(labels.items())),
                'parts': parts, 'shards': nshards, 'inconclusive': inconclusive,
            },
            'assumptions': rules.ASSUMPTIONS.get(pid, []) + rules.COMMON,
            'wall_s': round(time.monotonic() - start, 2),
            'violations': len(violations),
        }
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        path = os.path.join(OUT, 'evidence', f'{pid}.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + '.tmp', path)

        if os.path.exists(FINDINGS):
            for line in open(FINDINGS):
                if line.startswith(f'open: property={pid} '):
                    print('KNOWN-FINDING: ' + line[len('open: '):].strip())

        if violations:
            violation = min(violations, key=lambda v: v['size'])
            os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
            replay = os.path.join(OUT, 'replays', f'{pid}-{violation["part"]}-{seed}.json')
            with open(replay, 'w') as f:
                json.dump({'property': pid, **violation}, f, indent=1)
            print(violation['message'])
            print('case: ' + json.dumps(violation['case'])[:3000])
            print(f'VIOLATION property={pid} replay={replay}')
            return 1
        if errors:
            print(f'{pid}: no answer')
            for e in errors[:2]:
                print(e[-4000:])
            return 2
        if evidence['coverage']['distinct_nontrivial'] == 0:
            print(f'{pid}: nothing was explored')
            return 2
        c = evidence['coverage']
        print(f'{pid}: held on {c["evaluations"]} cases ({c["distinct_nontrivial"]} distinct non-trivial), '
              f'{evidence["wall_s"]} s' + (f'; inconclusive: {inconclusive}' if inconclusive else ''))
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
