"""usage: run.py PROPERTY [quick|thorough]  |  run.py replay FILE"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE]
sys.setrecursionlimit(5000)


def module_for(pid):
    for name in sorted(os.listdir(os.path.join(HERE, 'checks'))):
        if name.startswith(pid.lower() + '_') and name.endswith('.py'):
            return importlib.import_module('checks.' + name[:-3])
    raise SystemExit('no check for ' + pid)


def main(argv):
    import algebraixlib
    assert algebraixlib.__path__[0] == '/repo/algebraixlib', algebraixlib.__path__
    from vlib import engine
    import vlib.bridge  # Registers the resets of global state.
    if argv[0] == 'replay':
        return engine.replay(argv[1], module_for)
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1')) & 0x7fffffff
    return engine.run_property(argv[0], module_for(argv[0]), tier, seed)


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except Exception:  # pylint: disable=broad-except
        import traceback
        traceback.print_exc()
        code = 3  # An error of the harness, not a violation.
    sys.stdout.flush()
    sys.exit(code)
