"""python -m mc.run Cxx [quick|thorough] [--replay FILE] [--sub NAME]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import py2compat  # noqa: E402,F401  (the import hook that runs the Python 2 sources)

sys.path.insert(0, '/repo')
import warnings  # noqa: E402

warnings.simplefilter('ignore')

if __name__ == '__main__':
    from mc import engine
    mod = importlib.import_module('checks.' + sys.argv[1])
    rc = engine.main(mod, sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)
