"""A second process with other hash values: objects are sent there and back."""
import json
import os
import pickle
import struct
import subprocess
import sys

from .engine import Fail

_HELPERS = {}


class Helper:
    def __init__(self, hash_seed):
        env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env['PYTHONPATH'] = here + os.pathsep + env.get('PYTHONPATH', '')
        self.proc = subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-m', 'vlib.remote'], env=env, cwd=here,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def call(self, payload, op_name):
        data = pickle.dumps((op_name, payload))
        self.proc.stdin.write(struct.pack('>Q', len(data)) + data)
        self.proc.stdin.flush()
        head = self.proc.stdout.read(8)
        if len(head) < 8:
            raise Fail('the other process died', 'died')
        return pickle.loads(self.proc.stdout.read(struct.unpack('>Q', head)[0]))


def call(hash_seed, payload, op_name=None):
    """Send the pickled ``payload`` (a list of objects) to a process with other hash values.

    Return what `_answer` returns there.
    """
    key = (os.getpid(), hash_seed)
    if key not in _HELPERS:
        _HELPERS[key] = Helper(hash_seed)
    helper = _HELPERS[key]
    try:
        result = helper.call(payload, op_name)
    except BaseException:
        helper.proc.kill()
        helper.proc.wait()
        del _HELPERS[key]
        raise
    if 'error' in result:
        raise Fail('in another process: ' + result['error'], 'remote')
    return result


ELSEWHERE = """
import json, os, sys, tempfile
import algebraixlib.mathobjects as mo
{}
bad = []
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, 'file')
    for item in json.loads(sys.stdin.buffer.read().decode()):
        try:
            problem = run(item, path)
        except Exception as exc:
            problem = repr(exc)
        if problem:
            bad.append([item, problem])
sys.stdout.buffer.write(json.dumps(bad).encode())
"""


def elsewhere(code, batch):
    """Call the function ``run(item, path)`` of ``code`` where the locale does not use UTF-8.

    It returns what is wrong with the item, if anything.
    """
    env = dict(os.environ, LC_ALL='C', LANG='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    env.pop('PYTHONIOENCODING', None)
    run = subprocess.run(
        [sys.executable, '-W', 'ignore', '-c', ELSEWHERE.format(code)], env=env,
        input=json.dumps(batch).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if run.returncode:
        raise Fail('the process failed: {}'.format(run.stderr[-1500:].decode()), 'process')
    bad = json.loads(run.stdout.decode())
    if bad:
        raise Fail('with the locale C: {!r}'.format(bad[:2]), 'locale')


# In the other process -----------------------------------------------------------------------------

def _answer(op_name, payload):
    from . import bridge as b
    from . import ops
    from algebraixlib.util.latexprinter import math_object_to_latex
    objs = pickle.loads(payload)
    looks = []
    for obj in objs:
        val = b.to_model(obj)
        fresh = b.build(val)
        if not (obj == fresh and fresh == obj) or obj != fresh or hash(obj) != hash(fresh):
            raise Fail('{!r} is not equal to one that is built anew'.format(obj), 'equal')
        if fresh not in {obj} or obj not in {fresh: 1}:
            raise Fail('{!r} is not found'.format(obj), 'found')
        b.audit(obj, val)
        ground = obj.get_ground_set()
        if ground != fresh.get_ground_set() or hash(ground) != hash(fresh.get_ground_set()):
            raise Fail('{!r} has another ground set'.format(obj), 'ground')
        looks.append((repr(obj), str(obj), math_object_to_latex(obj), pickle.dumps(ground)))
    result = {'back': pickle.dumps(objs), 'looks': looks,
              'sorted': [repr(obj) for obj in sorted(objs)] if len(objs) > 1 else []}
    if op_name is not None:
        got = ops.BY_NAME[op_name].func(*objs)
        result['result'] = pickle.dumps(got)
        result['repr'] = repr(got)
    return result


def _main():
    stdin, stdout = sys.stdin.buffer, sys.stdout.buffer
    sys.stdout = sys.stderr
    while True:
        head = stdin.read(8)
        if len(head) < 8:
            return
        op_name, payload = pickle.loads(stdin.read(struct.unpack('>Q', head)[0]))
        try:
            result = _answer(op_name, payload)
        except Exception as exc:  # pylint: disable=broad-except
            result = {'error': '{}: {}'.format(type(exc).__name__, exc)}
        data = pickle.dumps(result)
        stdout.write(struct.pack('>Q', len(data)) + data)
        stdout.flush()


if __name__ == '__main__':
    _main()
