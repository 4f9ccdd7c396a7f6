import os
import sys


def main():
    from . import boot
    boot.boot()
    from . import core
    if sys.argv[1] == '--replay':
        return core.replay(sys.argv[2])
    import importlib
    mod = importlib.import_module('pbt.props.' + sys.argv[1].lower())
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return core.run_property(mod, os.environ.get('VERIF_TIER', 'quick'), seed)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code) if code else sys.exit(0)
