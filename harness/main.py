import importlib
import os
import shutil
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    pid = sys.argv[1]
    chk = None
    try:
        mod = importlib.import_module('check_' + pid.lower())
        chk = vlib.Check(pid, level=getattr(mod, 'LEVEL', 'model_checking'))
        mod.run(chk)
        return chk.finish()
    except Exception:       # machinery failure
        traceback.print_exc()
        print('ERROR property=%s: the check itself failed' % pid)
        return 3
    finally:
        if chk is not None:
            shutil.rmtree(chk.scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
