# -*- coding: utf-8 -*-
import importlib
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'checks'))
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.setrecursionlimit(5000)

if sys.implementation.name == 'cpython':
    # the code under test also runs on CPython 3, with one removed standard function put back
    import glob
    import inspect
    inspect.getargspec = lambda f: tuple(inspect.getfullargspec(f)[:4])
    sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo')]
    sys.path.extend(glob.glob('/opt/venv-slow/lib/*/site-packages'))

import core  # noqa


def main(argv):
    pid = argv[0]
    if core.REPO != '/repo':
        sys.path.insert(0, core.REPO)
    mod = importlib.import_module(pid.lower())
    ck = core.Check(mod.ID, mod.LEVEL)
    if len(argv) > 2 and argv[1] == '--replay':
        with open(argv[2], encoding='utf8') as f:
            rec = json.load(f)
        res = mod.run_case(ck, rec['case'])
        for r in res:
            print('  %s' % (r,))
        if res:
            print('VIOLATION property=%s replay=%s' % (mod.ID, argv[2]))
            return 1
        print('replay: no violation')
        return 0
    if len(argv) > 3 and argv[1] == '--space':
        fn = dict((n, f) for n, f, w in mod.spaces(ck))[argv[2]]
        acc = core.parallel(fn)
        with open(argv[3], 'wb') as f:
            import pickle
            pickle.dump(acc, f, 2)
        return 0
    try:
        if hasattr(mod, 'run'):
            mod.run(ck)
        else:
            ck.run_spaces(mod.ID, mod.spaces(ck))
        if hasattr(mod, 'assumptions'):
            ck.assumptions = list(mod.assumptions)
    except core.WorkerError as e:
        print(e)
        if ck.acc.nviol:
            return ck.finish()
        return 2
    except Exception:
        traceback.print_exc()
        if core.in_repo(sys.exc_info()[2]):
            ck.acc.violation('unexpected exception\n' + traceback.format_exc(), None)
        if ck.acc.nviol:
            return ck.finish()
        return 2
    return ck.finish()


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
