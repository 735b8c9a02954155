import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path[:] = [p for p in sys.path if os.path.basename(p) != 'mc']
from mc import boot, engine     # noqa: E402

if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        boot.bind()
        print('bound to', boot.REPO)
        sys.exit(0)
    so = os.dup(1)
    boot.bind()
    mod = importlib.import_module('checks.' + sys.argv[1].lower())
    sys.exit(engine.main(mod, sys.argv[2:]))
