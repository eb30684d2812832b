#!/usr/bin/env python3
"""Tries the planted bugs in seeded/: that each applies, keeps the stable tests passing, is shown by its demo, and which
checks find it.   seeded.py [-c CHECK,...|own|none] [ID ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def run(cmd, cwd, env, timeout=900):
    p = subprocess.run(['timeout', '-k', '5', str(timeout)] + cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    return p.returncode, p.stdout


def main():
    args = sys.argv[1:]
    checks = 'own'
    if args and args[0] == '-c':
        checks = args[1]
        args = args[2:]
    ids = args or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    home = tempfile.mkdtemp(prefix='seeded-')
    ok = True
    try:
        for id_ in ids:
            folder = os.path.join(VERIF, 'seeded', id_)
            meta = json.load(open(os.path.join(folder, 'meta.json')))
            repo = os.path.join(home, 'repo')
            shutil.rmtree(repo, ignore_errors=True)
            subprocess.run(['cp', '-a', '/repo', repo], check=True)
            # Compiled code can be kept for as long as the file it comes from is the same
            patched = 'core.py' in open(os.path.join(folder, 'patch.diff')).read()
            cache = os.path.join(home, 'nbc-' + (id_ if patched else 'all'))
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', NUMBA_CACHE_DIR=cache + '-tests', VERIF_OUT=home, VERIF_REPO=repo,
                       VERIF_DEV_CACHE=cache + '-checks', TMPDIR=home)
            demo = ['bash', os.path.join(folder, 'demo.sh')]
            clean, out0 = run(demo, repo, env, 300)
            p = subprocess.run(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=repo, stderr=subprocess.PIPE, text=True)
            if p.returncode:
                print(f'{id_}: does not apply: {p.stderr}')
                ok = False
                continue
            broken, out1 = run(demo, repo, env, 300)
            tests, out2 = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--deselect',
                               'testing/test_ldf.py::test_choice_model_evaluate', 'testing'], repo, env)
            good = clean == 0 and broken != 0 and tests == 0
            ok = ok and good
            print(f'{id_}: {"counts" if good else "DOES NOT COUNT"} (demo {clean}, with the bug {broken}, tests {tests})', flush=True)
            if clean or not broken:
                print(out0[-1500:], out1[-1500:])
            if tests:
                print(out2[-600:])
            if checks != 'none':
                for pid in [meta['property']] if checks == 'own' else checks.split(','):
                    code, out = run(['python3', os.path.join(VERIF, 'harness', 'run.py'), pid], VERIF, env)
                    said = out.strip().splitlines()
                    print(f'    {pid}: {"caught" if code == 1 else "MISSED" if code == 0 else "no answer"}: '
                          f'{(said or [""])[0][:230]}', flush=True)
                    if code not in (0, 1):
                        print(out[-600:])
            if patched:
                shutil.rmtree(cache + '-tests', ignore_errors=True)
                shutil.rmtree(cache + '-checks', ignore_errors=True)
    finally:
        shutil.rmtree(home, ignore_errors=True)
    return 0 if ok else 1


if __name__ == '__main__':
    sys.exit(main())
