"""A second process with another hash seed, which runs the same things: for properties that hold 'in any process'.

Run as a script it reads one JSON request per line ([module, function, argument]) and writes one JSON reply per line.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import json
import subprocess

from harness.core import HarnessError

_peer = None


class Peer:
    def __init__(self, hash_seed):
        env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
        self.proc = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.abspath(__file__)], env=env,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, module, function, argument):
        try:
            self.proc.stdin.write(json.dumps([module, function, argument]) + '\n')
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except OSError as e:
            raise HarnessError(f'the other process went away: {e}')
        if not line:
            raise HarnessError('the other process went away')
        return json.loads(line)


def peer(hash_seed=12345):
    global _peer
    if _peer is None:
        import atexit
        _peer = Peer(hash_seed)
        atexit.register(_peer.proc.kill)
    return _peer


def main():
    from harness import boot
    boot.setup()
    import importlib
    import traceback
    reply_to = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        module, function, argument = json.loads(line)
        try:
            reply = {'value': getattr(importlib.import_module(module), function)(argument)}
        except Exception as e:
            reply = {'error': f'{type(e).__name__}: {e}', 'trace': traceback.format_exc()}
        reply_to.write(json.dumps(reply) + '\n')
        reply_to.flush()


if __name__ == '__main__':
    main()
